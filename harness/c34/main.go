// C34: monitor for the job server: the real server runs in this process, clients
// post jobs at the same time, and the files each job leaves are compared with
// those of the same job run alone without the server. Hostile jobs, malformed
// descriptions and traversal requests are interspersed; the server must answer
// and go on serving.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	postop "github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/rest"
	"github.com/mlnoga/nightlight/internal/zzverif/jobs"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

var addr string

const secret = "the-decoy-content-8d1f"

func serve(c *kit.C, panics io.Writer) {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, panics
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Fatal("VK: %v", err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		addr = fmt.Sprintf("127.0.0.1:%d", port)
		go rest.Serve(port, 4000)
		for x := 0; x < 100; x++ {
			if ping() == nil {
				return
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	c.Fatal("VK: server does not start")
}

var client = &http.Client{Timeout: 300 * time.Second}

func ping() error {
	r, err := client.Get("http://" + addr + "/api/v1/ping")
	if err != nil {
		return err
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	if r.StatusCode != 200 || !strings.Contains(string(b), "pong") {
		return fmt.Errorf("status %d, %s", r.StatusCode, b)
	}
	return nil
}

func post(body string) (status int, text string, err error) {
	r, err := client.Post("http://"+addr+"/api/v1/job", "application/json", strings.NewReader(body))
	if err != nil {
		return 0, "", err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, string(b), err
}

func files(dir string) map[string][]byte {
	o := map[string][]byte{}
	ns, _ := filepath.Glob(dir + "/*")
	for _, n := range ns {
		b, _ := os.ReadFile(n)
		if strings.HasSuffix(n, ".html") { // rows in any order
			ls := strings.Split(string(b), "\n")
			sort.Strings(ls)
			b = []byte(strings.Join(ls, "\n"))
		}
		o[filepath.Base(n)] = b
	}
	return o
}

func main() {
	kit.Main("C34", "one evaluation = one batch of concurrent requests to a running server; distinct = jobs x results, hostile jobs, requests", func(k *kit.K) {
		kit.ExactStats()
		pan := &kit.Log{}
		up := false
		start := func(c *kit.C) {
			if up {
				return
			}
			os.MkdirAll("work/sub", 0755)
			os.WriteFile("outside.txt", []byte(secret), 0644)
			os.MkdirAll("work2", 0755)
			os.WriteFile("work2/outside.txt", []byte(secret), 0644)
			if err := os.Chdir("work"); err != nil {
				c.Fatal("VK: %v", err)
			}
			serve(c, pan)
			up = true
		}
		race := os.Getenv("VK_PHASE") == "race"
		n := k.N(8, 150)
		if race {
			n = k.N(4, 60)
		}
		after := func(c *kit.C, what string) {
			if err := ping(); err != nil {
				c.Fatal("%s: the server does not answer any more: %v", what, err)
			}
			if s := pan.String(); strings.Contains(s, "panic recovered") {
				i := strings.Index(s, "panic recovered")
				*pan = kit.Log{}
				c.Fatal("%s: a request handler panicked: %.1500s", what, s[i:])
			}
		}
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("concurrent/%d", i), func(c *kit.C) { start(c); concurrent(c, i); after(c, "concurrent jobs") })
		}
		for i := 0; i < 8*n; i++ {
			k.Case(fmt.Sprintf("hostile/%d", i), func(c *kit.C) { start(c); hostile(c, func(what string) { after(c, what) }) })
			k.Case(fmt.Sprintf("malformed/%d", i), func(c *kit.C) { start(c); malformed(c); after(c, "malformed jobs") })
			if i%4 == 0 {
				k.Case(fmt.Sprintf("failing/%d", i), func(c *kit.C) { start(c); failing(c); after(c, "failing jobs") })
			}
			k.Case(fmt.Sprintf("files/%d", i), func(c *kit.C) { start(c); fileRequests(c); after(c, "file requests") })
		}
	})
}

type clientJob struct {
	rc        jobs.Recipe
	body      string
	out, base string
	want      map[string][]byte
	werr      error
}

func concurrent(c *kit.C, i int) {
	r := c.Rng
	base := "c" + fmt.Sprint(r.Int63())
	var js []*clientJob
	for x := 0; x < 2+r.Intn(3); x++ {
		s := jobs.Shoot(c, base, fmt.Sprintf("in%d", x), 4+r.Intn(4), 2*(50+r.Intn(15)), 2*(45+r.Intn(15)))
		for y := 0; y < 1+r.Intn(2); y++ {
			var rc jobs.Recipe
			switch r.Intn(4) {
			case 0:
				rc = jobs.Colour(r, s)
			case 1:
				rc = jobs.Stretch(r, s)
			default:
				rc = jobs.Stack(r, s, false)
			}
			j := &clientJob{rc: rc, base: base, out: fmt.Sprintf("%s/srv%d_%d", base, x, y)}
			own := fmt.Sprintf("%s/own%d_%d", base, x, y)
			os.MkdirAll(j.out, 0755)
			os.MkdirAll(own, 0755)
			b, err := json.Marshal(rc.Build(j.out))
			if err != nil {
				c.Fatal("%s: %v", rc.Name, err)
			}
			j.body = string(b)
			ctx, _ := kit.Context()
			ctx.StackMemoryMB = 4000
			ps, err := rc.Build(own).MakePromises(nil, ctx)
			if err == nil {
				_, err = ops.MaterializeAll(ps, ctx.MaxThreads, true)
			}
			j.want, j.werr = files(own), err
			js = append(js, j)
		}
	}
	old := runtime.GOMAXPROCS(2 + r.Intn(15))
	defer runtime.GOMAXPROCS(old)
	texts, status, errs := make([]string, len(js)), make([]int, len(js)), make([]error, len(js))
	var wg sync.WaitGroup
	for x := range js {
		wg.Add(1)
		d := time.Duration(r.Intn(20)) * time.Millisecond
		go func(x int) {
			defer wg.Done()
			time.Sleep(d)
			status[x], texts[x], errs[x] = post(js[x].body)
		}(x)
	}
	wg.Wait()
	for x, j := range js {
		what := fmt.Sprintf("job %d of %d, %s", x+1, len(js), j.rc.Name)
		if errs[x] != nil || status[x] != 200 {
			c.Fatal("%s: status %d, %v: %.300s", what, status[x], errs[x], texts[x])
		}
		failed := strings.Contains(texts[x], "Error ") || (j.werr != nil && strings.Contains(texts[x], j.werr.Error()))
		if failed != (j.werr != nil) {
			c.Fatal("%s: error is %v when run alone, but the response ends in %q", what, j.werr, tail(texts[x]))
		}
		args(c, what, texts[x], j.body)
		c.Count("jobs", 1)
		if failed {
			continue
		}
		got := files(j.out)
		for n := range j.want {
			if !bytes.Equal(got[n], j.want[n]) {
				c.Fatal("%s: file %s of %d bytes differs from that of %d bytes written by the job alone", what, n, len(got[n]), len(j.want[n]))
			}
		}
		if len(got) != len(j.want) {
			c.Fatal("%s: %d files, want %d", what, len(got), len(j.want))
		}
		c.Count("files identical", len(got))
		c.Seen(j.rc.Name)
	}
	c.Sample("%d jobs at once, e.g. %s", len(js), js[0].rc.Name)
}

func tail(s string) string {
	if len(s) > 200 {
		return s[len(s)-200:]
	}
	return s
}

// if the response plays back the arguments, they are those posted
func args(c *kit.C, what, text, body string) {
	i := strings.Index(text, "Arguments:")
	if i < 0 {
		return
	}
	var got, want interface{}
	if err := json.NewDecoder(strings.NewReader(text[i+len("Arguments:"):])).Decode(&got); err != nil {
		c.Fatal("%s: arguments in the response: %v", what, err)
	}
	json.Unmarshal([]byte(body), &want)
	a, _ := json.Marshal(got)
	b, _ := json.Marshal(want)
	if !bytes.Equal(a, b) {
		c.Fatal("%s: arguments in the response are %.300s, posted %.300s", what, a, b)
	}
}

func num(r *rand.Rand) string {
	return []string{"0", "1", "-1", "2", "3", "0.5", "1e-9", "-3", "7", "16", "64", "100", "-100", "1000", "1e9", "-1e9", "1e30"}[r.Intn(17)]
}

func small(r *rand.Rand) string {
	return []string{"0", "1", "-1", "2", "3", "5", "7", "-7", "16", "60", "100", "2000", "-2147483648", "2147483647"}[r.Intn(14)]
}

var stepTypes = strings.Fields(`HSLUnsharpMask align backExtract badPixel bin calibrate debandHoriz debandVert debayer exportStats filter gamma gammaPP
	gaussianBlur hslApplyLum hslGamma hslGammaPP hslMidtones hslNeutralizeBackground hslRotateHue hslSCNR hslSaturationGamma hslScaleBlack
	hslScaleOffsetChannel hslSelectiveSaturation hslStretch hsluvToRGB load loadMany matchHist midtones normRange rgbBalance rgbCombine rgbToHSLuv
	save scaleBlack scaleOffset selectRef seq stack stackBatches starDetect stretch unsharpMask`)

// a step with random parameters in place of some of its defaults
func step(r *rand.Rand, dir string) string {
	t := stepTypes[r.Intn(len(stepTypes))]
	if t == "seq" {
		return fmt.Sprintf(`{"type":"seq","steps":[%s]}`, step(r, dir))
	}
	if t == "stackBatches" {
		if r.Intn(8) == 0 {
			return `{"type":"stackBatches","perBatch":null}`
		}
		return fmt.Sprintf(`{"type":"stackBatches","perBatch":{"type":"seq","steps":[%s,{"type":"stack"}]}}`, step(r, dir))
	}
	f := ops.GetOperatorFactory(t)
	if f == nil {
		return fmt.Sprintf(`{"type":%q}`, t)
	}
	b, err := json.Marshal(f())
	var v interface{}
	if err != nil || json.Unmarshal(b, &v) != nil {
		return fmt.Sprintf(`{"type":%q}`, t)
	}
	prob := []float64{0, 0.3, 1}[r.Intn(3)]
	v = vary(r, dir, t, "", v, prob)
	b, _ = json.Marshal(v)
	return string(b)
}

// vary replaces values in a job, each by one of its kind
func vary(r *rand.Rand, dir, t, key string, v interface{}, prob float64) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k != "type" {
				x[k] = vary(r, dir, t, k, x[k], prob)
			}
		}
		if (key == "starDetect" || key == "save" || key == "debayer") && r.Intn(6) == 0 {
			return nil
		}
		return x
	case string:
		if r.Float64() >= prob {
			return x
		}
		var o []string
		switch key {
		case "channel":
			o = []string{"R", "G", "B", "", "x"}
		case "colorFilterArray":
			o = []string{"RGGB", "GRBG", "GBRG", "BGGR", "", "R", "ABCD"}
		case "mode":
			o = []string{"%starsHFR", "%location", "%rgb", "0", "99", "", dir + "/a.fits", "x"}
		case "filePattern":
			o = []string{dir + "/o/o%d.fits", dir + "/o/o.jpg", dir + "/o/o.tif", dir + "/o/o.txt", dir + "/no/x.fits", dir + "/o/%d%d.fits", ""}
		case "fileName":
			o = []string{dir + "/a.fits", dir + "/nan.fits", dir + "/const.fits", dir + "/one.fits", dir + "/b.fits", dir + "/c.fits", dir + "/rgb.fits", dir + "/bad.fits", dir + "/missing.fits", "", dir}
			if t == "exportStats" {
				o = []string{dir + "/o/s.html", "", dir, dir + "/no/s.html"}
			}
		default:
			o = []string{dir + "/a.fits", dir + "/nan.fits", dir + "/const.fits", dir + "/one.fits", dir + "/b.fits", dir + "/c.fits", dir + "/rgb.fits", dir + "/bad.fits", dir + "/missing.fits", "", "../outside.txt", "/etc/hostname", dir}
		}
		return o[r.Intn(len(o))]
	case float64:
		if r.Float64() >= prob {
			return x
		}
		s := num(r)
		switch {
		case strings.Contains(t, "lur") || strings.Contains(t, "nsharp"), key == "radius", key == "gridSize", key == "k":
			s = str16(r)
		case x == float64(int64(x)) && r.Intn(3) != 0:
			s = small(r)
		}
		return json.Number(s)
	case []interface{}, nil:
		if key == "filePatterns" {
			return []interface{}{dir + []string{"/*.fits", "/[a", "/a*", "/n.txt", "/none*"}[r.Intn(5)], "../*"}
		}
	}
	return v
}

// a small size, so that no step needs much time or memory
func str16(r *rand.Rand) string {
	return []string{"0", "1", "-1", "2", "3", "16", "40", "0.5"}[r.Intn(7)]
}

// jobs with arbitrary steps and parameters get an answer, and the server goes on
func hostile(c *kit.C, after func(string)) {
	r := c.Rng
	dir := fmt.Sprintf("h%d", r.Int63())
	os.MkdirAll(dir+"/o", 0755)
	w, h := 10+r.Intn(40), 10+r.Intn(40)
	for _, n := range []string{"a", "b"} {
		d := kit.Noise(r, w*h, 300, 10)
		for _, s := range kit.StarField(r, w, h, 4, 5, 6) {
			s.Flux, s.Sigma = 20000, 1.3
			kit.Render(d, w, h, s)
		}
		kit.Img(0, w, h, d).WriteFile(dir + "/" + n + ".fits")
	}
	kit.Img(0, w+1, h+2, kit.Noise(r, (w+1)*(h+2), 100, 3)).WriteFile(dir + "/c.fits")
	kit.RGBImg(0, w, h, kit.Noise(r, w*h*3, 100, 3)).WriteFile(dir + "/rgb.fits")
	nan := kit.Noise(r, w*h, 200, 5)
	for i := range nan {
		if i%w < 3 || r.Intn(50) == 0 {
			nan[i] = float32(math.NaN())
		}
		if r.Intn(100) == 0 {
			nan[i] = float32(math.Inf(1 - 2*r.Intn(2)))
		}
	}
	kit.Img(0, w, h, nan).WriteFile(dir + "/nan.fits")
	kit.Img(0, w, h, make([]float32, w*h)).WriteFile(dir + "/const.fits")
	kit.Img(0, 1, 1, []float32{3}).WriteFile(dir + "/one.fits")
	kit.Img(0, 5, 1, []float32{3, 1, 4, 1, 5}).WriteFile(dir + "/row.fits")
	kit.RGBImg(0, 2, 2, kit.Noise(r, 12, 1, 1)).WriteFile(dir + "/rgb2.fits")
	fits.NewImageFromNaxisn([]int32{int32(w)}, kit.Noise(r, w, 9, 1)).WriteFile(dir + "/line.fits")
	os.WriteFile(dir+"/bad.fits", []byte("SIMPLE  =   T, not"), 0644)
	os.WriteFile(dir+"/n.txt", []byte("text"), 0644)
	for x := 0; x < 10; x++ {
		var steps []string
		switch r.Intn(6) {
		case 0:
		case 5:
			odd := []string{"nan", "const", "one", "row", "rgb2", "line"}
			steps = append(steps, fmt.Sprintf(`{"type":"loadMany","filePatterns":["%s/%s.fits","%s/%s.fits"]}`, dir, odd[r.Intn(6)], dir, append(odd, "a", "b", "missing")[r.Intn(9)]))
		case 1:
			steps = append(steps, fmt.Sprintf(`{"type":"load","fileName":"%s/rgb.fits"}`, dir))
		case 2:
			steps = append(steps, fmt.Sprintf(`{"type":"loadMany","filePatterns":["%s/[abc].fits"]}`, dir))
		default:
			steps = append(steps, fmt.Sprintf(`{"type":"loadMany","filePatterns":["%s/[ab].fits"]}`, dir))
		}
		for y := 1 + r.Intn(4); y > 0; y-- {
			steps = append(steps, step(r, dir))
		}
		body := `{"type":"seq","steps":[` + strings.Join(steps, ",") + `]}`
		os.WriteFile(c.K.Scratch+"/lastjob", []byte(body), 0644)
		t0 := time.Now()
		status, text, err := post(body)
		if err != nil || status != 200 && status != 400 {
			c.Fatal("job %s: status %d, %v, %.300q", body, status, err, text)
		}
		if status == 200 {
			args(c, body, text, argsOf(body))
		}
		after("job " + body)
		c.Count("hostile jobs", 1)
		if strings.Contains(text, "Error ") {
			c.Count("hostile jobs with an error", 1)
		}
		c.Count("ms in hostile jobs", int(time.Since(t0).Milliseconds()))
		c.Seen(types(body), status, strings.Contains(text, "Error "))
	}
	os.RemoveAll(filepath.Join(c.K.Scratch, "work", dir))
}

// the job as parsed, with its defaults
func argsOf(body string) string {
	var s ops.OpSequence
	if json.Unmarshal([]byte(body), &s) != nil {
		return body
	}
	b, _ := json.Marshal(&s)
	return string(b)
}

func types(body string) string {
	var o []string
	for _, p := range strings.Split(body, `"type":"`)[1:] {
		o = append(o, p[:strings.Index(p, `"`)])
	}
	return strings.Join(o, " ")
}

func malformed(c *kit.C) {
	r := c.Rng
	good, _ := json.Marshal(ops.NewOpSequence(pre.NewOpBin(2), pre.NewOpScaleOffset(2, 1), ops.NewOpSequence(pre.NewOpBin(1))))
	for x := 0; x < 10; x++ {
		var body string
		switch r.Intn(6) {
		case 0:
			body = string(good[:1+r.Intn(len(good)-1)])
		case 1:
			body = []string{"", "x", "{", "[1,2]", `"seq"`, "17", "{]", `{"type":"seq","steps":17}`, `{"type":"seq","steps":["x"]}`, `{"type":"seq","steps":[1]}`}[r.Intn(10)]
		case 2:
			body = strings.Replace(string(good), `"bin"`, `"unknownStep"`, 1)
		case 3:
			body = `{"type":"seq","steps":[{"type":"seq","steps":[{"type":"?"}]}]}`
		case 4:
			body = strings.Replace(string(good), ":2", `:"two"`, 1)
		case 5:
			body = `{"type":"seq","steps":[{"binSize":2}]}`
		}
		status, text, err := post(body)
		if err != nil {
			c.Fatal("malformed job %q: %v", body, err)
		}
		if status != http.StatusBadRequest || !strings.Contains(text, "rror") {
			c.Fatal("malformed job %q: status %d, response %.200q", body, status, text)
		}
		c.Seen("malformed", body)
		c.Count("malformed jobs", 1)
	}
}

// jobs which cannot succeed, among them some which fail before any frame is
// loaded; next to them others which do
func failing(c *kit.C) {
	r := c.Rng
	dir := "f" + fmt.Sprint(r.Int63())
	os.MkdirAll(dir+"/o", 0755)
	defer os.RemoveAll(filepath.Join(c.K.Scratch, "work", dir))
	for _, n := range []string{"a", "b"} {
		kit.Img(0, 12, 10, kit.Noise(r, 120, 100, 3)).WriteFile(dir + "/" + n + ".fits")
	}
	kit.Img(0, 13, 10, kit.Noise(r, 130, 100, 3)).WriteFile(dir + "/other.fits")
	os.WriteFile(dir+"/bad.fits", []byte("SIMPLE  =   T, not"), 0644)
	load := ops.NewOpLoadMany([]string{dir + "/[ab].fits"})
	save := ops.NewOpSave(dir+"/o/o%d.fits", ops.EMMinMax, 1)
	sd := pre.NewOpStarDetect(8, 1.5, 0, 1.4, "")
	seq := ops.NewOpSequence
	all := map[string]ops.Operator{
		"no files match":               seq(ops.NewOpLoadMany([]string{dir + "/none*.fits"}), save),
		"malformed pattern":            seq(ops.NewOpLoadMany([]string{dir + "/[a"}), save),
		"refused file":                 seq(ops.NewOpLoad(0, "../outside.txt"), save),
		"refused pattern":              seq(ops.NewOpLoadMany([]string{"../*.txt"}), save),
		"missing file":                 seq(ops.NewOpLoad(0, dir+"/missing.fits"), save),
		"damaged file":                 seq(ops.NewOpLoadMany([]string{dir + "/*a*.fits"}), save),
		"step without frames":          seq(pre.NewOpBin(2), save),
		"load after load":              seq(load, ops.NewOpLoad(0, dir+"/a.fits")),
		"load many after load":         seq(load, load),
		"stack without frames":         seq(stack.NewOpStack(stack.StMean, stack.StWeightNone, -1, -1)),
		"batches without frames":       seq(stack.NewOpStackBatches(seq(stack.NewOpStack(stack.StMean, stack.StWeightNone, -1, -1)))),
		"reference without frames":     seq(ref.NewOpSelectReference(ref.SRAlign, "%starsHFR", sd)),
		"reference by unknown id":      seq(load, ref.NewOpSelectReference(ref.SRAlign, "77", sd), save),
		"unknown suffix":               seq(load, ops.NewOpSave(dir+"/o/o%d.txt", ops.EMMinMax, 1)),
		"missing folder":               seq(load, ops.NewOpSave(dir+"/none/o%d.fits", ops.EMMinMax, 1)),
		"missing dark":                 seq(load, pre.NewOpCalibrate(dir+"/none.fits", ""), save),
		"flat of another size":         seq(load, pre.NewOpCalibrate("", dir+"/other.fits"), save),
		"stack of several sizes":       seq(ops.NewOpLoadMany([]string{dir + "/[abo]*.fits"}), stack.NewOpStack(stack.StMean, stack.StWeightNone, -1, -1), save),
		"statistics in missing folder": seq(load, ref.NewOpExportStats(dir+"/none/s.html")),
		"unknown colour filter array":  seq(load, pre.NewOpDebayer("R", "XYZ"), save),
		"colours of two frames":        seq(load, rgb.NewOpRGBCombine(), save),
		"alignment without reference":  seq(load, sd, postop.NewOpAlign(20, 1, postop.OOBModeNaN), save),
	}
	delete(all, "damaged file")
	all["damaged file"] = seq(ops.NewOpLoadMany([]string{dir + "/[ab]*.fits"}), pre.NewOpScaleOffset(2, 1), save)
	var ns []string
	for n := range all {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	r.Shuffle(len(ns), func(a, b int) { ns[a], ns[b] = ns[b], ns[a] })
	texts, status, errs, own, bodies := make([]string, len(ns)), make([]int, len(ns)), make([]error, len(ns)), make([]error, len(ns)), make([]string, len(ns))
	for i, n := range ns {
		ctx, _ := kit.Context()
		ps, err := all[n].MakePromises(nil, ctx)
		if err == nil {
			_, err = ops.MaterializeAll(ps, ctx.MaxThreads, true)
		}
		if err == nil {
			c.Fatal("%s: no error, even without the server", n)
		}
		own[i] = err
		b, err := json.Marshal(all[n])
		if err != nil {
			c.Fatal("%s: %v", n, err)
		}
		bodies[i] = string(b)
	}
	var wg sync.WaitGroup
	lim := make(chan bool, 1+r.Intn(6))
	for i := range ns {
		wg.Add(1)
		lim <- true
		go func(i int) {
			defer wg.Done()
			status[i], texts[i], errs[i] = post(bodies[i])
			<-lim
		}(i)
	}
	wg.Wait()
	for i, n := range ns {
		if errs[i] != nil || status[i] != 200 && status[i] < 400 {
			c.Fatal("%s: status %d, %v: %.200q", n, status[i], errs[i], texts[i])
		}
		said := texts[i]
		if x := strings.Index(said, "Arguments:"); x >= 0 { // what follows the arguments
			var v interface{}
			d := json.NewDecoder(strings.NewReader(said[x+len("Arguments:"):]))
			if d.Decode(&v) == nil {
				said = said[:x] + said[x+len("Arguments:")+int(d.InputOffset()):]
			}
		}
		if !strings.Contains(strings.ToLower(said), "error") && !strings.Contains(said, own[i].Error()) {
			c.Fatal("job with %s: the response does not report the error (%v): %.300q", n, own[i], said)
		}
		c.Seen("failing", n)
		c.Count("failing jobs", 1)
	}
	// a job which does not fail reports none
	b, _ := json.Marshal(seq(load, pre.NewOpBin(2), ops.NewOpSave(dir+"/o/good%d.fits", ops.EMMinMax, 1)))
	st, text, err := post(string(b))
	if f := files(dir + "/o"); err != nil || st != 200 || strings.Contains(text, "Error ") || f["good0.fits"] == nil || f["good1.fits"] == nil {
		c.Fatal("good job after failing ones: status %d, %v, %.300q", st, err, tail(text))
	}
}

func fileRequests(c *kit.C) {
	r := c.Rng
	name := fmt.Sprintf("sub/f%d.bin", r.Int63())
	content := make([]byte, r.Intn(100000))
	r.Read(content)
	os.WriteFile(name, content, 0644)
	defer os.Remove(name)
	get := func(p string) (int, []byte) {
		resp, err := client.Get("http://" + addr + p)
		if err != nil {
			c.Fatal("GET %s: %v", p, err)
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		return resp.StatusCode, b
	}
	if st, b := get("/api/v1/files/" + name); st != 200 || !bytes.Equal(b, content) {
		c.Fatal("file request: status %d, %d bytes, want %d", st, len(b), len(content))
	}
	if st, b := get("/api/v1/files/missing.fits"); st != 404 {
		c.Fatal("missing file: status %d, %d bytes", st, len(b))
	}
	if st, b := get([]string{"/", "/index.html"}[r.Intn(2)]); st != 200 || !strings.Contains(strings.ToLower(string(b)), "<html") {
		c.Fatal("start page: status %d, %.100q", st, b)
	}
	abs, _ := filepath.Abs("../outside.txt")
	ups := []string{"../", "%2e%2e/", "..%2f", "sub/../../", "%2e./", "./../", "..%5c", "//../", "sub/%2e%2e/%2e%2e/", "..;/", "....//"}
	for x := 0; x < 6; x++ {
		p := "/api/v1/files/" + ups[r.Intn(len(ups))] + []string{"outside.txt", "work2/outside.txt"}[r.Intn(2)]
		if r.Intn(5) == 0 {
			p = "/api/v1/files/" + abs
		}
		if r.Intn(6) == 0 {
			p = "/js/" + ups[r.Intn(len(ups))] + "outside.txt"
		}
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			c.Fatal("VK: %v", err)
		}
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", p)
		resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
		if err != nil {
			c.Fatal("raw GET %s: %v", p, err)
		}
		b, _ := io.ReadAll(resp.Body)
		conn.Close()
		if strings.Contains(string(b), secret) {
			c.Fatal("GET %s gives a file outside the working directory, status %d", strings.Replace(p, c.K.Scratch, "SCRATCH", -1), resp.StatusCode)
		}
		c.Seen("get", strings.Replace(p, c.K.Scratch, "SCRATCH", -1))
		c.Count("traversal requests", 1)
	}
}
