// C36: monitor for the web editor. The page and its scripts are fetched from the
// real server and run with a stand-in for the block library; pipelines of blocks
// are built and started with the button of the page. What arrives is read back by
// the real parser and compared with what the blocks show.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	_ "github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	_ "github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/rest"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

type M = map[string]interface{}

// what a control of a block stands for
type ctl struct {
	key    string
	labels M // by shown label, for lists to choose from
	kind   string
}

func num(k string) ctl { return ctl{key: k, kind: "num"} }
func txt(k string) ctl { return ctl{key: k, kind: "txt"} }
func sub(k string) ctl { return ctl{key: k, kind: "sub"} }
func lst(k string, l ...interface{}) ctl {
	m := M{}
	for i := 0; i < len(l); i += 2 {
		m[l[i].(string)] = l[i+1]
	}
	return ctl{key: k, labels: m, kind: "lst"}
}
func ints(k string, v ...int) ctl {
	m := M{}
	for _, x := range v {
		m[fmt.Sprint(x)] = float64(x)
	}
	return ctl{key: k, labels: m, kind: "lst"}
}

type blk struct {
	op   string
	ctls []ctl
}

func windows() ctl { return ints("window", 8, 16, 32, 64, 96, 128, 192, 256, 384, 512) }

var table = map[string]blk{
	"nl_file_load":       {"load", []ctl{txt("fileName")}},
	"nl_file_loadMany":   {"loadMany", []ctl{txt("filePatterns")}},
	"nl_file_save":       {"save", []ctl{txt("filePattern")}},
	"nl_pre_calibrate":   {"calibrate", []ctl{txt("dark"), txt("flat")}},
	"nl_pre_badPixel":    {"badPixel", []ctl{num("sigmaLow"), num("sigmaHigh"), sub("debayer")}},
	"nl_pre_debayer":     {"debayer", []ctl{lst("channel", "no", "", "red", "R", "green", "G", "blue", "B"), lst("colorFilterArray", "RGGB", "RGGB", "GRBG", "GRBG", "GBRG", "GBRG", "BGGR", "BGGR")}},
	"nl_pre_debandVert":  {"debandVert", []ctl{num("percentile"), windows()}},
	"nl_pre_debandHoriz": {"debandHoriz", []ctl{num("percentile"), windows()}},
	"nl_pre_scaleOffset": {"scaleOffset", []ctl{num("scale"), num("offset")}},
	"nl_pre_bin":         {"bin", []ctl{ints("binSize", 1, 2, 3, 4)}},
	"nl_pre_backExtract": {"backExtract", []ctl{ints("gridSize", 0, 32, 64, 128, 256, 512, 1024), num("hfrFactor"), num("sigma"), num("clip"), sub("save")}},
	"nl_pre_starDetect":  {"starDetect", []ctl{num("radius"), num("sigma"), num("badPixelSigma"), num("inOutRatio"), sub("save")}},
	"nl_ref_selectReference": {"selectRef", []ctl{lst("target", "alignment", 0., "histogram matching", 1.),
		lst("mode", "highest # stars / HFR (for lights)", "%starsHFR", "median skyfog location (for flats)", "%location", "given filename", nil, "given image ID", nil, "Lum if present, else best RGB", "%rgb"),
		{key: "fileName", kind: "ref"}, sub("starDetect")}},
	"nl_post_matchHistogram": {"matchHist", []ctl{lst("mode", "disabled", 0., "location (for calibration frames)", 1., "location and scale (for light frames)", 2., "black point (for RGB combination)", 3.)}},
	"nl_post_align":          {"align", []ctl{num("k"), num("threshold"), lst("oobMode", "not-a-number (for stacking)", 0., "the reference skyfog peak", 1., "this frame's skyfog peak", 2.)}},
	"nl_stack_stack": {"stack", []ctl{lst("mode", "median (no sigmas)", 0., "mean (no sigmas)", 1., "sigma-clipped mean", 2., "winsorized mean", 3., "MAD sigma-clipped mean", 4., "linear regression fit", 5., "automatic mode selection", 6.),
		num("sigmaLow"), num("sigmaHigh"), lst("weighting", "equally", 0., "by exposure time", 1., "by inverse noise (lower noise has higher weight)", 2., "by inverse HFR (lower HFR has higher weight)", 3.)}},
	"nl_stack_stackBatches":          {"stackBatches", []ctl{sub("perBatch")}},
	"nl_stretch_normRange":           {"normRange", nil},
	"nl_stretch_stretch":             {"stretch", []ctl{num("location"), num("scale")}},
	"nl_stretch_midtones":            {"midtones", []ctl{num("mid"), num("black")}},
	"nl_stretch_gamma":               {"gamma", []ctl{num("gamma")}},
	"nl_stretch_gammaPP":             {"gammaPP", []ctl{num("gamma"), num("sigma")}},
	"nl_stretch_scaleBlack":          {"scaleBlack", []ctl{num("location")}},
	"nl_stretch_unsharpMask":         {"unsharpMask", []ctl{num("sigma"), num("gain"), num("threshold")}},
	"nl_rgb_rgbCombine":              {"rgbCombine", nil},
	"nl_rgb_rgbBalance":              {"rgbBalance", nil},
	"nl_rgb_rgbToHSLuv":              {"rgbToHSLuv", nil},
	"nl_rgb_hsluvToRGB":              {"hsluvToRGB", nil},
	"nl_hsl_hslApplyLum":             {"hslApplyLum", nil},
	"nl_hsl_hslScaleOffsetChannel":   {"hslScaleOffsetChannel", []ctl{lst("channelID", "Hue", 0., "Saturation", 1., "Luminance", 2.), num("scale"), num("offset")}},
	"nl_hsl_hslNeutralizeBackground": {"hslNeutralizeBackground", []ctl{num("sigmaLow"), num("sigmaHigh")}},
	"nl_hsl_hslSaturationGamma":      {"hslSaturationGamma", []ctl{num("gamma"), num("sigma")}},
	"nl_hsl_hslSelectiveSaturation":  {"hslSelectiveSaturation", []ctl{num("factor"), num("from"), num("to")}},
	"nl_hsl_hslRotateHue":            {"hslRotateHue", []ctl{num("from"), num("to"), num("offset"), num("sigma")}},
	"nl_hsl_hslSCNR":                 {"hslSCNR", []ctl{num("factor")}},
	"nl_hsl_hslMidtones":             {"hslMidtones", []ctl{num("mid"), num("black")}},
	"nl_hsl_hslGamma":                {"hslGamma", []ctl{num("gamma")}},
	"nl_hsl_hslGammaPP":              {"hslGammaPP", []ctl{num("gamma"), num("sigma")}},
	"nl_hsl_hslScaleBlack":           {"hslScaleBlack", []ctl{num("location")}},
}

// control as defined by the page
type arg struct {
	Type, Label         string
	Value               *float64
	Text                *string
	Min, Max, Precision *float64
	Options             []string
}

type node struct {
	Type string `json:"type"`
	Off  bool   `json:"off,omitempty"`
	Args []M    `json:"args,omitempty"`
}
type job struct {
	Stack []node   `json:"stack"`
	Reply []string `json:"reply"`
}
type script struct {
	Name string `json:"name"`
	Code string `json:"code"`
}
type input struct {
	Base    string   `json:"base"`
	Scripts []script `json:"scripts"`
	Button  string   `json:"button"`
	Jobs    []job    `json:"jobs"`
}
type post struct{ URL, Method, Body, Type string }
type output struct {
	Load    string
	Defs    map[string][]arg
	Order   []string
	Toolbox interface{}
	Runs    []struct {
		Error  string
		Posted []post
		Alerts []string
		Shown  string
	}
}

type page struct {
	base, button string
	scripts      []script
	defs         map[string][]arg
	order        []string
	toolbox      interface{}
}

var client = &http.Client{Timeout: 60 * time.Second}

func get(c *kit.C, url string) string {
	r, err := client.Get(url)
	if err != nil {
		c.Fatal("GET %s: %v", url, err)
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if r.StatusCode != 200 || err != nil {
		c.Fatal("GET %s: status %d, error %v", url, r.StatusCode, err)
	}
	return string(b)
}

func serve(c *kit.C) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Fatal("VK: %v", err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	go rest.Serve(port, 1024)
	base := fmt.Sprintf("http://127.0.0.1:%d", port)
	for i := 0; i < 600; i++ {
		if r, err := client.Get(base + "/api/v1/ping"); err == nil {
			r.Body.Close()
			return base
		}
		time.Sleep(50 * time.Millisecond)
	}
	c.Fatal("VK: the server does not answer")
	return ""
}

var reScript = regexp.MustCompile(`(?is)<script([^>]*)>(.*?)</script>`)
var reSrc = regexp.MustCompile(`(?i)src\s*=\s*["']([^"']+)["']`)
var reButton = regexp.MustCompile(`(?is)<button([^>]*)>\s*Run\s*</button>`)
var reClick = regexp.MustCompile(`(?is)onclick\s*=\s*(?:"([^"]+)"|'([^']+)')`)
var reID = regexp.MustCompile(`(?is)\bid\s*=\s*["']([^"']+)["']`)
var reComment = regexp.MustCompile(`(?s)<!--.*?-->`)

func load(c *kit.C) *page {
	p := &page{base: serve(c)}
	html := get(c, p.base+"/")
	if alt := get(c, p.base+"/index.html"); alt != html {
		c.Fail("/ and /index.html differ")
	}
	html = reComment.ReplaceAllString(html, "")
	for _, m := range reScript.FindAllStringSubmatch(html, -1) {
		if s := reSrc.FindStringSubmatch(m[1]); s != nil {
			if strings.Contains(s[1], "blockly/") || strings.Contains(s[1], "field-slider/") {
				continue // parts not kept in the repository
			}
			p.scripts = append(p.scripts, script{s[1], get(c, p.base+"/"+strings.TrimPrefix(s[1], "/"))})
		} else {
			p.scripts = append(p.scripts, script{"inline", m[2]})
		}
	}
	b := reButton.FindStringSubmatch(html)
	if b == nil {
		c.Fatal("VK: no button to run a job")
	}
	if m := reClick.FindStringSubmatch(b[1]); m != nil {
		p.button = m[1] + m[2]
	} else if m := reID.FindStringSubmatch(b[1]); m != nil {
		p.button = fmt.Sprintf("__click(%q)", m[1])
	} else {
		c.Fatal("VK: no action on the button to run a job")
	}
	return p
}

func (p *page) run(c *kit.C, jobs []job) *output {
	if jobs == nil {
		jobs = []job{}
	}
	in, _ := json.Marshal(input{p.base + "/", p.scripts, p.button, jobs})
	f := filepath.Join(c.Dir(), "driver.js")
	if err := os.WriteFile(f, []byte(driver), 0644); err != nil {
		c.Fatal("VK: %v", err)
	}
	cmd := exec.Command("node", f)
	cmd.Stdin = bytes.NewReader(in)
	var se bytes.Buffer
	cmd.Stderr = &se
	b, err := cmd.Output()
	if err != nil {
		c.Fatal("VK: node: %v %s", err, se.String())
	}
	var o output
	if err := json.Unmarshal(b, &o); err != nil {
		c.Fatal("VK: driver output: %v %.300s", err, b)
	}
	if o.Load != "" {
		c.Fatal("the scripts of the page do not load: %s", o.Load)
	}
	if len(o.Runs) != len(jobs) {
		c.Fatal("VK: %d runs for %d jobs", len(o.Runs), len(jobs))
	}
	return &o
}

func shown(a arg) float64 {
	if a.Value == nil {
		return 0
	}
	return *a.Value
}

// setting of one control: a random or a chosen one, and what it shows
func setting(r *rand.Rand, a arg, which int) (M, interface{}) {
	switch {
	case a.Type == "field_dropdown":
		i := 0
		if which >= 0 {
			i = which % len(a.Options)
		} else if which == -1 {
			i = r.Intn(len(a.Options))
		}
		return M{"pick": i}, a.Options[i]
	case a.Type == "field_slider" || a.Type == "field_number" || a.Type == "field_angle":
		lo, hi, pr := 0.0, 360.0, 1.0
		if a.Min != nil {
			lo = *a.Min
		}
		if a.Max != nil {
			hi = *a.Max
		}
		if a.Precision != nil && *a.Precision > 0 {
			pr = *a.Precision
		}
		var v float64
		switch {
		case which == -2:
			v = shown(a)
		case which == 0:
			v = lo
		case which == 1:
			v = hi
		default:
			v = lo + (hi-lo)*r.Float64()
		}
		v = math.Round(v/pr) * pr
		d := 0
		if s := fmt.Sprint(pr); strings.Contains(s, ".") {
			d = len(s) - strings.Index(s, ".") - 1
		}
		fmt.Sscan(fmt.Sprintf("%.*f", d, v), &v)
		return M{"num": v}, v
	}
	t := []string{"light.fits", "", "a b.fits", `quo"te.fits`, `back\slash*.fit`, "späte ñächte/星%04d.fits", "out/<x>&'y'.jpg", "7", "tab\tnew\nline", " lead.fits ", "{\"type\":\"x\"}", "%location"}
	s := t[r.Intn(len(t))]
	if which == -2 && a.Text != nil {
		s = *a.Text
	} else if which >= 0 {
		s = t[which%len(t)]
	}
	return M{"text": s}, s
}

// a block with given settings, and what the server has to understand
func (p *page) block(c *kit.C, r *rand.Rand, typ string, which func(i int) int, depth int) (node, M) {
	b, as := table[typ], p.defs[typ]
	n, want := node{Type: typ}, M{"type": b.op}
	loose := len(as) != len(b.ctls)
	modeOwn := false
	for i, a := range as {
		var k ctl
		if loose { // accepted by the server with any setting, all that can be said
			k.kind = "?"
			if strings.HasPrefix(a.Type, "input_") {
				n.Args = append(n.Args, M{})
				continue
			}
		} else {
			k = b.ctls[i]
		}
		if strings.HasPrefix(a.Type, "input_") {
			if k.kind != "sub" {
				loose = true
				n.Args = append(n.Args, M{})
				continue
			}
			if depth <= 0 || which(i) == -3 || r.Intn(3) == 0 {
				n.Args = append(n.Args, M{})
				want[k.key] = none{}
				continue
			}
			var st []node
			if k.key == "perBatch" {
				var ws []M
				for j := 1 + r.Intn(3); j > 0; j-- {
					x, w := p.any(c, r, depth-1)
					if x.Off = r.Intn(5) == 0; !x.Off {
						ws = append(ws, w)
					}
					st = append(st, x)
				}
				want[k.key] = ws
				if len(ws) == 0 {
					want[k.key] = none{}
				}
			} else {
				t := map[string]string{"save": "nl_file_save", "debayer": "nl_pre_debayer", "starDetect": "nl_pre_starDetect"}[k.key]
				x, w := p.block(c, r, t, func(int) int { return -1 }, depth-1)
				if x.Off = r.Intn(8) == 0; x.Off {
					want[k.key] = none{}
				} else {
					want[k.key] = w
				}
				st = []node{x}
			}
			n.Args = append(n.Args, M{"stack": st})
			continue
		}
		set, show := setting(r, a, which(i))
		n.Args = append(n.Args, set)
		switch k.kind {
		case "num":
			if _, ok := show.(float64); !ok {
				loose = true
			}
			want[k.key] = show
		case "lst":
			v, ok := k.labels[fmt.Sprint(show)]
			if !ok {
				c.Count("choices not known to the monitor", 1)
				loose = true
			} else if v == nil {
				modeOwn = true
			} else {
				want[k.key] = v
			}
		case "ref":
			if modeOwn {
				want["mode"] = show
			}
		case "txt":
			if k.key == "filePatterns" {
				want[k.key] = []interface{}{show}
			} else {
				want[k.key] = show
			}
		default:
			loose = true
		}
	}
	if loose {
		c.Count("blocks with controls not known to the monitor", 1)
		return n, M{"type": b.op, "?": true}
	}
	return n, want
}

type unknown struct{} // a control this monitor knows nothing about
type none struct{}    // nothing put in: absent or the default

func (p *page) known() (ts []string) {
	for _, t := range p.order {
		if _, ok := table[t]; ok {
			ts = append(ts, t)
		}
	}
	return
}

func (p *page) any(c *kit.C, r *rand.Rand, depth int) (node, M) {
	ts := p.known()
	return p.block(c, r, ts[r.Intn(len(ts))], func(int) int { return -1 }, depth)
}

func asMap(c *kit.C, x interface{}) M {
	b, err := json.Marshal(x)
	if err != nil {
		c.Fatal("VK: %v", err)
	}
	m := M{}
	if err := json.Unmarshal(b, &m); err != nil {
		c.Fatal("VK: %v", err)
	}
	return m
}

func defaults(c *kit.C, typ string) M {
	s := &ops.OpSequence{}
	if err := json.Unmarshal([]byte(fmt.Sprintf(`{"type":"seq","steps":[{"type":%q}]}`, typ)), s); err != nil || len(s.Steps) != 1 {
		c.Fatal("VK: defaults of %s: %v", typ, err)
	}
	return asMap(c, s.Steps[0])
}

// steps of a parsed operator as serialized again
func stepsOf(x interface{}) []interface{} {
	m, ok := x.(M)
	if !ok || m == nil {
		return nil
	}
	if m["type"] == "seq" || m["steps"] != nil {
		var o []interface{}
		l, _ := m["steps"].([]interface{})
		for _, s := range l {
			if sm, ok := s.(M); ok && sm["type"] == "seq" {
				o = append(o, stepsOf(s)...)
			} else {
				o = append(o, s)
			}
		}
		return o
	}
	return []interface{}{m}
}

func same(c *kit.C, want M, got interface{}, path string) string {
	g, ok := got.(M)
	if !ok {
		return fmt.Sprintf("%s: %v in place of %v", path, got, want["type"])
	}
	if t, ok := g["type"]; ok && t != want["type"] {
		return fmt.Sprintf("%s: operator %v in place of %v", path, g["type"], want["type"])
	}
	if want["?"] != nil {
		return ""
	}
	path += "/" + want["type"].(string)
	def := defaults(c, want["type"].(string))
	for k, d := range def {
		w, set := want[k]
		if !set {
			if fmt.Sprint(g[k]) != fmt.Sprint(d) {
				return fmt.Sprintf("%s: %s is %v, not set by the block and %v by default", path, k, g[k], d)
			}
			continue
		}
		switch x := w.(type) {
		case none:
			if l := stepsOf(g[k]); k == "perBatch" && len(l) == 0 {
				continue
			}
			if g[k] != nil && fmt.Sprint(g[k]) != fmt.Sprint(d) {
				return fmt.Sprintf("%s: %s is %v with nothing put in", path, k, g[k])
			}
		case []M:
			l := stepsOf(g[k])
			if len(l) != len(x) {
				return fmt.Sprintf("%s: %d steps in %s, not the %d shown: %v", path, len(l), k, len(x), g[k])
			}
			for i := range x {
				if s := same(c, x[i], l[i], fmt.Sprintf("%s/%s[%d]", path, k, i)); s != "" {
					return s
				}
			}
		case M:
			if s := same(c, x, g[k], path+"/"+k); s != "" {
				return s
			}
		case float64:
			v, ok := g[k].(float64)
			if !ok || float32(v) != float32(x) {
				return fmt.Sprintf("%s: %s is %v, the block shows %v", path, k, g[k], x)
			}
		default:
			if fmt.Sprintf("%q", g[k]) != fmt.Sprintf("%q", w) {
				return fmt.Sprintf("%s: %s is %q, the block shows %q", path, k, g[k], w)
			}
		}
	}
	for k := range want {
		if _, ok := def[k]; !ok {
			return fmt.Sprintf("%s: the operator has no parameter %s", path, k)
		}
	}
	return ""
}

type trial struct {
	job
	want []M
	text string
}

func (p *page) judge(c *kit.C, ts []trial) {
	var js []job
	for _, t := range ts {
		js = append(js, t.job)
	}
	o := p.run(c, js)
	for i, t := range ts {
		r := o.Runs[i]
		desc, _ := json.Marshal(t.Stack)
		c.Seen(string(desc))
		if r.Error != "" || len(r.Posted) != 1 || len(r.Alerts) > 0 {
			c.Fail("running %.600s: %d requests, error %.400q, alerts %.200q", desc, len(r.Posted), r.Error, r.Alerts)
			continue
		}
		q := r.Posted[0]
		if q.URL != p.base+"/api/v1/job" || q.Method != "POST" {
			c.Fail("the job is sent with %s to %s, the page comes from %s", q.Method, q.URL, p.base)
			continue
		}
		if r.Shown != t.text {
			c.Fail("the answer of the server is %.200q, the page shows %.200q", t.text, r.Shown)
		}
		s := &ops.OpSequence{}
		if err := json.Unmarshal([]byte(q.Body), s); err != nil {
			c.Fail("blocks %.800s: the server refuses the job %.500q: %v", desc, q.Body, err)
			continue
		}
		got := stepsOf(asMap(c, s))
		if len(got) != len(t.want) {
			c.Fail("blocks %.800s: %d steps arrive, not %d: %.500q", desc, len(got), len(t.want), q.Body)
			continue
		}
		for j, w := range t.want {
			if d := same(c, w, got[j], fmt.Sprintf("step %d", j+1)); d != "" {
				c.Fail("blocks %.800s: %s (sent %.500q)", desc, d, q.Body)
				break
			}
			c.Count("operator "+w["type"].(string), 1)
		}
		c.Count("pipelines run from the page", 1)
	}
}

func reply(r *rand.Rand) (string, []string) {
	words := []string{"0: Loading image\n", "größer ", "星空 ", "🌌", "done\n", "\t1%\n", "<b>&amp;</b>", "é"}
	var b strings.Builder
	for i := r.Intn(12); i > 0; i-- {
		b.WriteString(words[r.Intn(len(words))])
	}
	s := b.String()
	var cs []string
	for rest := []byte(s); len(rest) > 0; {
		n := 1 + r.Intn(7)
		if n > len(rest) {
			n = len(rest)
		}
		cs = append(cs, base64.StdEncoding.EncodeToString(rest[:n]))
		rest = rest[n:]
	}
	return s, cs
}

// try builds a trial, nil if it uses something this monitor knows nothing about
func try(f func() trial) (t *trial) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unknown); ok {
				t = nil
				return
			}
			panic(e)
		}
	}()
	x := f()
	return &x
}

var opened *page

// open returns the page, fetched from a server of its own once
func open(c *kit.C) *page {
	if opened == nil {
		q := load(c)
		o := q.run(c, nil)
		q.defs, q.order, q.toolbox = o.Defs, o.Order, o.Toolbox
		opened = q
	}
	return opened
}

func main() {
	kit.Main("C36", "one pipeline of blocks with its settings, as run from the page", func(k *kit.K) {
		k.Case("page", func(c *kit.C) {
			q := open(c)
			c.Count("block types", len(q.order))
			seen := map[string]bool{}
			for _, t := range q.order {
				if seen[t] {
					c.Fail("block %s is defined twice", t)
				}
				seen[t] = true
				if _, ok := table[t]; !ok {
					c.Count("block types not known to the monitor", 1)
				}
			}
			var walk func(x interface{})
			walk = func(x interface{}) {
				switch y := x.(type) {
				case []interface{}:
					for _, e := range y {
						walk(e)
					}
				case M:
					if y["kind"] == "block" {
						if t, ok := y["type"].(string); !ok || !seen[t] {
							c.Fail("the toolbox offers block %v, which is not defined", y["type"])
						}
						c.Count("toolbox entries", 1)
					}
					walk(y["contents"])
				}
			}
			walk(q.toolbox)
			for t := range table {
				if !seen[t] {
					c.Count("known block types missing", 1)
				}
			}
			c.Sample("page with %d scripts and %d block types, button %q", len(q.scripts), len(q.order), q.button)
		})
		mk := func(c *kit.C, f func() ([]node, []M)) *trial {
			return try(func() trial {
				st, ws := f()
				t, cs := reply(c.Rng)
				return trial{job{st, cs}, ws, t}
			})
		}
		var types []string
		for typ := range table {
			types = append(types, typ)
		}
		sort.Strings(types)
		for _, typ := range types {
			typ := typ
			k.Case("block/"+typ, func(c *kit.C) {
				p := open(c)
				if _, ok := p.defs[typ]; !ok {
					return
				}
				var ts []trial
				add := func(which func(i int) int, depth int) {
					if t := mk(c, func() ([]node, []M) {
						n, w := p.block(c, c.Rng, typ, which, depth)
						return []node{n}, []M{w}
					}); t != nil {
						ts = append(ts, *t)
					}
				}
				add(func(int) int { return -2 }, 0) // as dragged from the toolbox
				for i, a := range p.defs[typ] {
					i := i
					n := k.N(8, 60)
					if a.Type == "field_dropdown" {
						n = len(a.Options)
					} else if a.Type == "field_input" {
						n = 12
					}
					for v := 0; v < n; v++ {
						v := v
						add(func(j int) int {
							if i == j {
								return v
							}
							return -1
						}, 2)
					}
				}
				for i := k.N(6, 100); i > 0; i-- {
					add(func(int) int { return -1 }, 3)
				}
				p.judge(c, ts)
			})
		}
		for i := 0; i < k.N(12, 200); i++ {
			k.Case(fmt.Sprintf("pipe%d", i), func(c *kit.C) {
				r, p := c.Rng, open(c)
				var ts []trial
				for j := 0; j < 40; j++ {
					if t := mk(c, func() (st []node, ws []M) {
						for n := 1 + r.Intn(8); n > 0; n-- {
							x, w := p.any(c, r, 3)
							if x.Off = r.Intn(5) == 0; !x.Off {
								ws = append(ws, w)
							}
							st = append(st, x)
						}
						if len(ws) == 0 {
							panic(unknown{})
						}
						return
					}); t != nil {
						ts = append(ts, *t)
					}
				}
				p.judge(c, ts)
			})
		}
		for i := 0; i < k.N(4, 20); i++ {
			k.Case(fmt.Sprintf("served%d", i), func(c *kit.C) { open(c).served(c) })
		}
	})
}

// served runs a pipeline from the page on the real server and looks at the result
func (p *page) served(c *kit.C) {
	r := c.Rng
	dir := c.Dir()
	rel := filepath.Base(dir)
	w, h := 16+r.Intn(20), 16+r.Intn(20)
	n := 2 + r.Intn(3)
	ims := make([][]float32, n)
	for i := range ims {
		ims[i] = kit.Noise(r, w*h, 100+20*r.Float64(), 5)
		if err := kit.Img(i, w, h, ims[i]).WriteFile(filepath.Join(dir, fmt.Sprintf("f%d.fits", i))); err != nil {
			c.Fatal("VK: %v", err)
		}
	}
	st := func(typ string, args ...M) node { return node{Type: typ, Args: args} }
	pick := func(typ string, i int, label string) M {
		for j, o := range p.defs[typ][i].Options {
			if o == label {
				return M{"pick": j}
			}
		}
		panic(unknown{})
	}
	scale := float64(1 + r.Intn(4))
	median := r.Intn(2) == 0
	mode := "mean (no sigmas)"
	if median {
		mode = "median (no sigmas)"
	}
	t := try(func() trial {
		return trial{job: job{Stack: []node{
			st("nl_file_loadMany", M{"text": rel + "/f*.fits"}),
			st("nl_pre_scaleOffset", M{"num": scale}, M{"num": 50}),
			st("nl_stack_stack", pick("nl_stack_stack", 0, mode), M{"num": 2.75}, M{"num": 2.75}, pick("nl_stack_stack", 3, "equally")),
			st("nl_file_save", M{"text": rel + "/out.fits"}),
		}}}
	})
	if t == nil {
		c.Count("choices not known to the monitor", 1)
		return
	}
	o := p.run(c, []job{t.job})
	if o.Runs[0].Error != "" || len(o.Runs[0].Posted) != 1 {
		c.Fatal("running the job: %+v", o.Runs[0])
	}
	q := o.Runs[0].Posted[0]
	res, err := client.Post(q.URL, q.Type, strings.NewReader(q.Body))
	if err != nil {
		c.Fatal("posting the job: %v", err)
	}
	log, _ := io.ReadAll(res.Body)
	res.Body.Close()
	if res.StatusCode != 200 {
		c.Fatal("the server answers the job from the page with %d %.300q: %.400q", res.StatusCode, log, q.Body)
	}
	f, err := kit.Load(rel + "/out.fits")
	if err != nil {
		c.Fatal("no result of job %.400q: %v, log %.400q", q.Body, err, log)
	}
	var want fits.Image
	want.Data = make([]float32, w*h)
	px := make([]float32, n)
	for i := range want.Data {
		s := 0.0
		for j := range px {
			px[j] = float32(scale)*ims[j][i] + 50
			s += float64(px[j])
		}
		want.Data[i] = float32(s / float64(n))
		if median {
			want.Data[i] = kit.Median(px)
		}
		if !kit.Near(f.Data[i], want.Data[i], 1e-3, 1e-5) && !(median && n%2 == 0) {
			c.Fatal("%s of %d frames scaled by %g plus 50: pixel %d is %v, not %v", mode, n, scale, i, f.Data[i], want.Data[i])
		}
	}
	c.Seen(q.Body)
	c.Count("pipelines run on the server", 1)
}
