package kit

import (
	"math"
	"math/rand"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/stats"
)

// ExactStats makes location and scale deterministic (mean and standard deviation).
func ExactStats() { stats.LSEstimator = stats.LSEMeanStdDev }

// Sky returns n pixel values in [0,1]: gaussian background, some bright pixels, 0 and 1.
func Sky(r *rand.Rand, n int, loc, scale float64) []float32 {
	d := make([]float32, n)
	for i := range d {
		v := loc + scale*r.NormFloat64()
		if r.Intn(50) == 0 {
			v = r.Float64()
		}
		d[i] = float32(math.Max(0, math.Min(1, v)))
	}
	if n > 3 {
		d[r.Intn(n)], d[r.Intn(n)] = 0, 1
	}
	return d
}

// Meta is the part of an image that pixel operators keep.
type Meta struct {
	ID       int
	Name     string
	Exposure float32
	Naxisn   []int32
}

func MetaOf(f *fits.Image) Meta {
	return Meta{f.ID, f.FileName, f.Exposure, append([]int32(nil), f.Naxisn...)}
}

func CheckMeta(c *C, f *fits.Image, m Meta, what string) {
	if f.ID != m.ID || f.FileName != m.Name || f.Exposure != m.Exposure || !fits.EqualInt32Slice(f.Naxisn, m.Naxisn) {
		c.Fail("%s: metadata changed from %v to %v", what, m, MetaOf(f))
	}
	n := int32(1)
	for _, a := range f.Naxisn {
		n *= a
	}
	if int(n) != len(f.Data) || f.Pixels != n {
		c.Fail("%s: %d pixels, Pixels=%d for axes %v", what, len(f.Data), f.Pixels, f.Naxisn)
	}
}

// CheckMonotone verifies out is a non-decreasing function of in.
func CheckMonotone(c *C, in, out []float32, tol float64, what string) {
	idx := make([]int, len(in))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return in[idx[a]] < in[idx[b]] })
	top := math.Inf(-1) // largest output for strictly smaller inputs
	for a := 0; a < len(idx); {
		b := a
		lo, hi := math.Inf(1), math.Inf(-1)
		for ; b < len(idx) && in[idx[b]] == in[idx[a]]; b++ {
			v := float64(out[idx[b]])
			if v != v {
				c.Fatal("%s: value %v becomes NaN", what, in[idx[b]])
			}
			lo, hi = math.Min(lo, v), math.Max(hi, v)
		}
		if hi-lo > tol {
			c.Fatal("%s: equal values %v become %v and %v", what, in[idx[a]], lo, hi)
		}
		if lo < top-tol {
			c.Fatal("%s: value %v becomes %v, smaller ones up to %v", what, in[idx[a]], lo, top)
		}
		top = math.Max(top, hi)
		a = b
	}
}

// CheckRange verifies all values are within [lo,hi].
func CheckRange(c *C, d []float32, lo, hi float64, what string) {
	for i, v := range d {
		if !(float64(v) >= lo && float64(v) <= hi) {
			c.Fatal("%s: pixel %d is %v, outside [%v,%v]", what, i, v, lo, hi)
		}
	}
}
