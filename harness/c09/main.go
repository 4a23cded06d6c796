// C09: monitor for parallel evaluation: probes record start and finish of every
// computation; an online monitor checks the thread limit, an offline checker the
// trace: each run exactly once, steps in order, all finished before the return,
// results in order, every error reported.
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func main() {
	kit.Main("C09", "one evaluation = one parallel evaluation whose trace was checked; distinct = computations x limit x outcome pattern, and completion orders seen", func(k *kit.K) {
		kit.ExactStats()
		n := k.N(400, 12000)
		if os.Getenv("VK_PHASE") == "race" {
			n = k.N(150, 3000)
		}
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("all/%d", i), func(c *kit.C) { all(c, i) })
			k.Case(fmt.Sprintf("steps/%d", i), func(c *kit.C) { steps(c, i) })
			if i%20 == 0 {
				k.Case(fmt.Sprintf("nested/%d", i), func(c *kit.C) { nested(c, i) })
			}
		}
		for i := range unary("") {
			k.Case(fmt.Sprintf("skipped/%d", i), func(c *kit.C) { skipped(c, i) })
		}
	})
}

// event of a trace
type event struct {
	item, step int
	start      bool
}

type trace struct {
	mu       sync.Mutex
	ev       []event
	now      int32 // running at the same time
	most     int32
	over     bool
	returned int32 // set when the evaluation returned
	late     bool
}

func (t *trace) add(item, step int, start bool) {
	t.mu.Lock()
	t.ev = append(t.ev, event{item, step, start})
	t.mu.Unlock()
}

// enter and leave bracket a computation
func (t *trace) enter(limit int) {
	n := atomic.AddInt32(&t.now, 1)
	for {
		m := atomic.LoadInt32(&t.most)
		if n <= m || atomic.CompareAndSwapInt32(&t.most, m, n) {
			break
		}
	}
}

func (t *trace) leave() {
	if atomic.LoadInt32(&t.returned) != 0 {
		t.mu.Lock()
		t.late = true
		t.mu.Unlock()
	}
	atomic.AddInt32(&t.now, -1)
}

// pause delays a computation by one of several means
func pause(kind int) {
	switch kind {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(50) * time.Microsecond)
	case 3:
		time.Sleep(time.Millisecond)
	case 4:
		x := 0
		for i := 0; i < 20000; i++ {
			x += i
		}
		if x < 0 {
			panic(x)
		}
	}
}

const (
	good = iota
	skip
	fail
)

func img(id int) *fits.Image { return kit.Img(id, 2, 2, []float32{float32(id), 1, 2, 3}) }

// outcome classes and delays of n items
func plan(c *kit.C, n int) (kind, delay []int, msgs []string) {
	r := c.Rng
	pf, ps := 0.0, 0.0
	switch r.Intn(5) {
	case 1:
		pf = 0.2
	case 2:
		ps = 0.3
	case 3:
		pf, ps = 0.3, 0.3
	case 4:
		pf = 1
	}
	distinct := 1 + r.Intn(6)
	plain := r.Intn(3) == 0 // messages which start with another one
	style := r.Intn(4)
	for i := 0; i < n; i++ {
		k := good
		if x := r.Float64(); x < pf {
			k = fail
		} else if x < pf+ps {
			k = skip
		}
		kind = append(kind, k)
		d := 0
		switch style {
		case 1:
			d = r.Intn(5)
		case 2: // first ones slow
			if i < 3 {
				d = 3
			}
		case 3: // last ones slow
			if i >= n-3 {
				d = 3
			}
		}
		delay = append(delay, d)
		m := fmt.Sprintf("<error %d>", r.Intn(distinct))
		if distinct == 6 {
			m = fmt.Sprintf("<error %d>", i)
		}
		if plain {
			m = fmt.Sprintf("bad frame %d", r.Intn(distinct*4))
		}
		msgs = append(msgs, m)
	}
	return
}

func limitOf(c *kit.C, n int) int {
	return []int{1, 1, 2, 3, 4, 8, 16, n, n + 1, 100, 0, 33, 64}[c.Rng.Intn(13)]
}

// every message must be in the error
func checkErrors(c *kit.C, err error, want map[string]bool, what string) {
	if (err != nil) != (len(want) > 0) {
		c.Fatal("%s: error %v, want %v", what, err, want)
	}
	for m := range want {
		if !regexp.MustCompile(regexp.QuoteMeta(m) + `(\D|$)`).MatchString(err.Error()) {
			c.Fatal("%s: error %q is not reported in %q", what, m, err.Error())
		}
	}
	if err != nil {
		for i := 0; i < 400; i++ {
			if m := fmt.Sprintf("<error %d>", i); !want[m] && strings.Contains(err.Error(), m) {
				c.Fatal("%s: error %q is reported, but did not happen", what, m)
			}
			if m := fmt.Sprintf("bad frame %d", i); i < 30 && !want[m] && regexp.MustCompile(m+`(\D|$)`).MatchString(err.Error()) {
				c.Fatal("%s: error %q is reported, but did not happen", what, m)
			}
		}
	}
}

func all(c *kit.C, i int) {
	r := c.Rng
	n := r.Intn(12)
	if i%5 == 0 {
		n = r.Intn(64)
	}
	if i%25 == 0 {
		n = r.Intn(400)
	}
	limit := limitOf(c, n)
	if i%50 == 25 { // many processors
		n, limit = 300+r.Intn(100), 33+r.Intn(100)
	}
	kind, delay, msgs := plan(c, n)
	forget := r.Intn(3) == 0
	old := runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)])
	defer runtime.GOMAXPROCS(old)
	t := &trace{}
	var ins []ops.Promise
	imgs := make([]*fits.Image, n)
	want := map[string]bool{}
	for j := 0; j < n; j++ {
		j := j
		imgs[j] = img(j)
		if kind[j] == fail {
			want[msgs[j]] = true
		}
		ins = append(ins, func() (*fits.Image, error) {
			t.enter(limit)
			t.add(j, 0, true)
			pause(delay[j])
			t.add(j, 0, false)
			defer t.leave()
			switch kind[j] {
			case skip:
				return nil, nil
			case fail:
				return nil, errors.New(msgs[j])
			}
			return imgs[j], nil
		})
	}
	what := fmt.Sprintf("%d computations with limit %d, forget %v, outcomes %v", n, limit, forget, kind)
	outs, err := ops.MaterializeAll(ins, limit, forget)
	atomic.StoreInt32(&t.returned, 1)
	if atomic.LoadInt32(&t.now) != 0 {
		c.Fatal("%s: returned while %d still run", what, t.now)
	}
	if limit < 1 {
		limit = 1
	}
	if int(t.most) > limit {
		c.Fatal("%s: %d ran at the same time", what, t.most)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.late {
		c.Fatal("%s: a computation finished after the return", what)
	}
	runs, order := make([]int, n), ""
	for _, e := range t.ev {
		if e.start {
			runs[e.item]++
		} else {
			order += fmt.Sprint(e.item, ",")
		}
	}
	for j, x := range runs {
		if x != 1 {
			c.Fatal("%s: computation %d ran %d times", what, j, x)
		}
	}
	checkErrors(c, err, want, what)
	if !forget {
		var exp []*fits.Image
		for j := range imgs {
			if kind[j] == good {
				exp = append(exp, imgs[j])
			}
		}
		if len(outs) != len(exp) {
			c.Fatal("%s: %d results, want %d", what, len(outs), len(exp))
		}
		for j := range exp {
			if outs[j] != exp[j] {
				c.Fatal("%s: result %d is not the one of computation %d", what, j, exp[j].ID)
			}
			if outs[j].Data[0] != float32(outs[j].ID) {
				c.Fatal("%s: result %d was changed", what, j)
			}
		}
	}
	c.Count("computations traced", n)
	if t.most > 1 {
		c.Count("evaluations with overlap", 1)
	}
	c.Seen(n, limit, forget, len(want) > 0, int(t.most))
	c.Seen("order", order)
	c.Sample("%s: at most %d at once, finished in order %s", what, t.most, order)
}

// probe is a per-image step which records its runs
type probe struct {
	ops.OpUnaryBase
}

func newProbe(apply func(f *fits.Image, c *ops.Context) (*fits.Image, error)) *probe {
	return &probe{OpUnaryBase: ops.OpUnaryBase{OpBase: ops.OpBase{Type: "probe"}, Apply: apply}}
}

// sequences of steps, each of which may skip or fail images
func steps(c *kit.C, i int) {
	r := c.Rng
	n, m := 1+r.Intn(10), 1+r.Intn(5)
	limit := limitOf(c, n)
	if limit < 1 {
		limit = 1
	}
	t := &trace{}
	// outcome of step s for item j
	var kind, delay [][]int
	var msgs [][]string
	for s := 0; s <= m; s++ {
		k, d, g := plan(c, n)
		for j := range k { // mostly good
			if r.Intn(3) > 0 {
				k[j] = good
			}
		}
		kind, delay, msgs = append(kind, k), append(delay, d), append(msgs, g)
	}
	want := map[string]bool{}
	var exp []int
	for j := 0; j < n; j++ {
		ok := true
		for s := 0; s <= m && ok; s++ {
			if kind[s][j] == fail {
				want[msgs[s][j]] = true
			}
			ok = kind[s][j] == good
		}
		if ok {
			exp = append(exp, j)
		}
	}
	outcome := func(f *fits.Image, s, j int) (*fits.Image, error) {
		t.add(j, s, true)
		pause(delay[s][j])
		t.add(j, s, false)
		switch kind[s][j] {
		case skip:
			return nil, nil
		case fail:
			return nil, errors.New(msgs[s][j])
		}
		return f, nil
	}
	var ins []ops.Promise
	for j := 0; j < n; j++ {
		j := j
		ins = append(ins, func() (*fits.Image, error) {
			t.enter(limit)
			defer t.leave()
			return outcome(img(j), 0, j)
		})
	}
	var all []ops.Operator
	for s := 1; s <= m; s++ {
		s := s
		p := newProbe(func(f *fits.Image, _ *ops.Context) (*fits.Image, error) {
			f.Data[1] = f.Data[1]*10 + float32(s)
			return outcome(f, s, f.ID)
		})
		all = append(all, p)
	}
	// nested sequences are the same as flat ones
	var op ops.Operator = ops.NewOpSequence(all...)
	if r.Intn(2) == 0 && m > 1 {
		x := 1 + r.Intn(m-1)
		seq := ops.NewOpSequence(ops.NewOpSequence(all[:x]...))
		if r.Intn(2) == 0 {
			seq.Append(all[x:]...)
		} else {
			seq.Append(ops.NewOpSequence(all[x:]...))
		}
		op = seq
	}
	ctx, _ := kit.Context()
	what := fmt.Sprintf("%d steps for %d images with limit %d, outcomes %v", m, n, limit, kind)
	ps, err := op.MakePromises(ins, ctx)
	if err != nil || len(ps) != n {
		c.Fatal("%s: %d promises, %v", what, len(ps), err)
	}
	if len(t.ev) != 0 {
		c.Fatal("%s: runs before it is asked to", what)
	}
	outs, err := ops.MaterializeAll(ps, limit, false)
	checkErrors(c, err, want, what)
	if int(t.most) > limit {
		c.Fatal("%s: %d at the same time", what, t.most)
	}
	if len(outs) != len(exp) {
		c.Fatal("%s: %d results, want %v", what, len(outs), exp)
	}
	v := float32(1)
	for s := 1; s <= m; s++ {
		v = v*10 + float32(s)
	}
	for x, j := range exp {
		if outs[x].ID != j || outs[x].Data[1] != v {
			c.Fatal("%s: result %d is image %d with steps %v, want image %d with steps %v", what, x, outs[x].ID, outs[x].Data[1], j, v)
		}
	}
	// each step once per image, in order, until it is skipped or fails
	next := make([]int, n)
	open := make([]bool, n)
	for _, e := range t.ev {
		if e.start {
			if open[e.item] || next[e.item] != e.step {
				c.Fatal("%s: image %d runs step %d, expected %d", what, e.item, e.step, next[e.item])
			}
			open[e.item] = true
		} else {
			open[e.item] = false
			next[e.item] = e.step + 1
			if kind[e.step][e.item] != good {
				next[e.item] = -1
			}
		}
	}
	for j := range next {
		if next[j] != -1 && next[j] != m+1 {
			c.Fatal("%s: image %d ended before step %d", what, j, next[j])
		}
	}
	c.Count("steps traced", len(t.ev)/2)
	c.Seen("steps", n, m, limit, len(want), len(exp))
}

// evaluations within evaluations, as for reference selection
func nested(c *kit.C, i int) {
	r := c.Rng
	n := 2 + r.Intn(5)
	var runs [8][8]int32
	var ins []ops.Promise
	for a := 0; a < n; a++ {
		a := a
		ins = append(ins, func() (*fits.Image, error) {
			var sub []ops.Promise
			for b := 0; b < n; b++ {
				b := b
				sub = append(sub, func() (*fits.Image, error) {
					atomic.AddInt32(&runs[a][b], 1)
					pause(r0(a, b))
					if a == b {
						return nil, fmt.Errorf("<error %d>", a)
					}
					return img(a*n + b), nil
				})
			}
			fs, err := ops.MaterializeAll(sub, 1+a, false)
			if len(fs) != n-1 {
				return nil, fmt.Errorf("<error 399>")
			}
			return fs[0], err
		})
	}
	_, err := ops.MaterializeAll(ins, 1+r.Intn(n), false)
	want := map[string]bool{}
	for a := 0; a < n; a++ {
		want[fmt.Sprintf("<error %d>", a)] = true
		for b := 0; b < n; b++ {
			if runs[a][b] != 1 {
				c.Fatal("nested computation %d/%d ran %d times", a, b, runs[a][b])
			}
		}
	}
	checkErrors(c, err, want, "nested")
	c.Seen("nested", n)
}

func r0(a, b int) int { return (a*7 + b*3) % 5 }

func unary(dir string) []ops.Operator {
	sd := pre.NewOpStarDetect(8, 10, 0, 1.4, "")
	return []ops.Operator{
		pre.NewOpCalibrate("", ""), pre.NewOpBadPixel(3, 5, nil), pre.NewOpDebayer("R", "RGGB"), pre.NewOpDebandHoriz(50, 8, 3),
		pre.NewOpDebandVert(50, 8, 3), pre.NewOpScaleOffset(2, 1), pre.NewOpBin(2), sd, pre.NewOpBackExtract(8, 4, 1.5, 0, ""),
		ref.NewOpFilter(3), ref.NewOpFilter(0), ref.NewOpExportStats(""), post.NewOpMatchHistogram(post.HNMLocScale), post.NewOpAlign(20, 1, post.OOBModeNaN),
		ops.NewOpSave("", ops.EMMinMax, 1), ops.NewOpSave(filepath.Join(dir, "x%d.fits"), ops.EMMinMax, 1),
		stretch.NewOpNormalizeRange(), stretch.NewOpStretchIterative(0.1, 0.01), stretch.NewOpMidtones(2, 1), stretch.NewOpGamma(2),
		stretch.NewOpGammaPP(2, 1), stretch.NewOpScaleBlack(0.1), stretch.NewOpGaussianBlur(1), stretch.NewOpUnsharpMask(1, 1, 1),
		rgb.NewOpRGBBalance(8, 0.1, 0, 0.5, fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1}), rgb.NewOpRGBToHSLuv(), rgb.NewOpHSLuvToRGB(),
		hsl.NewOpHSLApplyLum(), hsl.NewOpHSLNeutralizeBackground(1, 2), hsl.NewOpHSLSaturationGamma(2, 1), hsl.NewOpHSLSelectiveSaturation(200, 300, 0.5),
		hsl.NewOpHSLRotateHue(100, 200, 30, 1), hsl.NewOpHSLSCNR(0.5), hsl.NewOpHSLMidtones(2, 1), hsl.NewOpHSLGamma(2), hsl.NewOpHSLGammaPP(2, 1),
		hsl.NewOpHSLScaleOffsetChannel(2, 2, 1), hsl.NewOpHSLUnsharpMask(1, 1, 1), hsl.NewOpHSLScaleBlack(0.1), hsl.NewOpHSLStretchIterative(0.1, 0.01),
		ops.NewOpSequence(pre.NewOpBin(2), pre.NewOpScaleOffset(2, 1), ref.NewOpFilter(1)),
		ref.NewOpSelectReference(ref.SRAlign, "%starsHFR", sd), ref.NewOpSelectReference(ref.SRHisto, "%location", sd),
	}
}

// skipped images pass through all real per-image steps without harm
func skipped(c *kit.C, i int) {
	op := unary(filepath.Base(c.Dir()))[i]
	ctx, _ := kit.Context()
	w, h := 16, 16
	noise := kit.Noise(c.Rng, w*h, 0.3, 0.01)
	frame := func(id int) *fits.Image { return kit.Img(id, w, h, kit.Copy32(noise)) }
	var runs [6]int32
	var ins []ops.Promise
	for j := 0; j < 6; j++ {
		j := j
		ins = append(ins, func() (*fits.Image, error) {
			atomic.AddInt32(&runs[j], 1)
			if j == 1 || j == 4 {
				return nil, nil
			}
			return frame(j), nil
		})
	}
	ctx.MaxThreads = 3
	for _, only := range []bool{true, false} {
		in := ins
		if only {
			in = []ops.Promise{ins[1], ins[4]}
		}
		ctx.RefFrameError = nil
		for j := range runs {
			runs[j] = 0
		}
		ps, err := op.MakePromises(in, ctx)
		if err != nil {
			c.Fatal("%s: %v", op.GetType(), err)
		}
		outs, _ := ops.MaterializeAll(ps, 3, false)
		for _, o := range outs {
			if o == nil || o.ID == 1 || o.ID == 4 {
				c.Fatal("%s: skipped image appears in the results", op.GetType())
			}
		}
		if only && len(outs) != 0 {
			c.Fatal("%s: %d images from skipped ones", op.GetType(), len(outs))
		}
		for j := range runs {
			if w := int32(1); runs[j] > w {
				c.Fatal("%s: image %d was evaluated %d times", op.GetType(), j, runs[j])
			}
		}
	}
	c.Count("operators given skipped images", 1)
	c.Seen("skipped", op.GetType(), i)
}
