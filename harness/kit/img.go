package kit

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sort"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
)

// Log is a thread-safe log sink.
type Log struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *Log) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *Log) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// Context returns an operator context logging to a private sink.
func Context() (*ops.Context, *Log) {
	l := &Log{}
	c := ops.NewContext(l, 4096, stats.LSEstimator)
	return c, l
}

// Img makes a 2D image from data (not copied).
func Img(id, w, h int, data []float32) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, data)
	f.ID = id
	return f
}

// RGBImg makes a 3-plane image.
func RGBImg(id, w, h int, data []float32) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 3}, data)
	f.ID = id
	return f
}

// Prom wraps an image in a promise.
func Prom(f *fits.Image) ops.Promise { return func() (*fits.Image, error) { return f, nil } }

// Proms wraps images in promises.
func Proms(fs []*fits.Image) (ps []ops.Promise) {
	for _, f := range fs {
		ps = append(ps, Prom(f))
	}
	return
}

// Run1 drives one image through an operator the way the pipeline does.
func Run1(op ops.Operator, f *fits.Image, c *ops.Context) (*fits.Image, error) {
	outs, err := op.MakePromises([]ops.Promise{Prom(f)}, c)
	if err != nil {
		return nil, err
	}
	if len(outs) != 1 {
		return nil, fmt.Errorf("VK: %d promises", len(outs))
	}
	return outs[0]()
}

// RunAll drives images through an operator and materializes all outputs.
func RunAll(op ops.Operator, ins []ops.Promise, c *ops.Context) ([]*fits.Image, error) {
	outs, err := op.MakePromises(ins, c)
	if err != nil {
		return nil, err
	}
	return ops.MaterializeAll(outs, c.MaxThreads, false)
}

// Copy32 clones a slice.
func Copy32(a []float32) []float32 { return append([]float32(nil), a...) }

// Noise returns gaussian noise around loc.
func Noise(r *rand.Rand, n int, loc, scale float64) []float32 {
	o := make([]float32, n)
	for i := range o {
		o[i] = float32(loc + scale*r.NormFloat64())
	}
	return o
}

// Star describes a rendered gaussian star.
type Star struct{ X, Y, Flux, Sigma float64 }

// Render adds a gaussian star to the data.
func Render(data []float32, w, h int, s Star) {
	R := int(s.Sigma*6) + 2
	for y := int(s.Y) - R; y <= int(s.Y)+R; y++ {
		for x := int(s.X) - R; x <= int(s.X)+R; x++ {
			if x < 0 || y < 0 || x >= w || y >= h {
				continue
			}
			dx, dy := float64(x)-s.X, float64(y)-s.Y
			data[y*w+x] += float32(s.Flux / (2 * math.Pi * s.Sigma * s.Sigma) * math.Exp(-(dx*dx+dy*dy)/(2*s.Sigma*s.Sigma)))
		}
	}
}

// StarField places n well separated stars away from the border.
func StarField(r *rand.Rand, w, h, n int, border, minDist float64) (ss []Star) {
	for tries := 0; len(ss) < n && tries < 20000; tries++ {
		s := Star{X: border + r.Float64()*(float64(w)-2*border), Y: border + r.Float64()*(float64(h)-2*border)}
		ok := true
		for _, o := range ss {
			if math.Hypot(o.X-s.X, o.Y-s.Y) < minDist {
				ok = false
				break
			}
		}
		if ok {
			ss = append(ss, s)
		}
	}
	return
}

// Same reports bitwise equality of floats, with all NaNs equal.
func Same(a, b float32) bool {
	return a == b || (a != a && b != b)
}

// Near compares with absolute and relative tolerance; NaN equals NaN.
func Near(a, b float32, abs, rel float64) bool {
	if a != a || b != b {
		return a != a && b != b
	}
	x, y := float64(a), float64(b)
	if x == y {
		return true
	}
	d := math.Abs(x - y)
	return d <= abs+rel*math.Max(math.Abs(x), math.Abs(y))
}

func Finite(v float32) bool { return v == v && !math.IsInf(float64(v), 0) }

// MMM returns reference min, mean, max and population stddev, in float64.
func MMM(a []float32) (min, mean, max float32, sd float64) {
	mi, ma, s := math.Inf(1), math.Inf(-1), 0.0
	for _, v := range a {
		x := float64(v)
		if x < mi {
			mi = x
		}
		if x > ma {
			ma = x
		}
		s += x
	}
	m := s / float64(len(a))
	vv := 0.0
	for _, v := range a {
		d := float64(v) - m
		vv += d * d
	}
	return float32(mi), float32(m), float32(ma), math.Sqrt(vv / float64(len(a)))
}

// Sorted returns an ascending copy.
func Sorted(a []float32) []float32 {
	b := Copy32(a)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

// Median by sorting: middle value, or mean of the two middle values.
func Median(a []float32) float32 {
	b := Sorted(a)
	n := len(b)
	if n%2 == 1 {
		return b[n/2]
	}
	return 0.5 * (b[n/2-1] + b[n/2])
}

var Discard io.Writer = io.Discard

// CheckStats compares an image's reported basic statistics with its pixels.
func CheckStats(c *C, f *fits.Image, what string) {
	if f.Stats == nil {
		c.Fail("%s: no statistics", what)
		return
	}
	mi, me, ma, _ := MMM(f.Data)
	tol := 1e-5 * (math.Abs(float64(ma)) + math.Abs(float64(mi)))
	if !Near(f.Stats.Min(), mi, 1e-30, 1e-6) || !Near(f.Stats.Max(), ma, 1e-30, 1e-6) || !Near(f.Stats.Mean(), me, tol+1e-30, 1e-4) {
		c.Fail("%s: stats min/mean/max %v/%v/%v, pixels have %v/%v/%v", what, f.Stats.Min(), f.Stats.Mean(), f.Stats.Max(), mi, me, ma)
	}
}

// HasNaN tells whether any value is NaN.
func HasNaN(a []float32) bool {
	for _, v := range a {
		if v != v {
			return true
		}
	}
	return false
}

// Load reads an image the way the pipeline does.
func Load(name string) (*fits.Image, error) {
	ctx, _ := Context()
	ps, err := ops.NewOpLoad(0, name).MakePromises(nil, ctx)
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("VK: %d promises", len(ps))
	}
	return ps[0]()
}
