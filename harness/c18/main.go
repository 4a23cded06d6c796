// C18: monitor for the location and scale estimators. Hostile images check
// termination and sanity, gaussian backgrounds with outliers check accuracy,
// transformed copies check equivariance. The estimators draw random samples, so
// tolerances are many standard errors wide.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

var modes = []stats.LSEstimatorMode{stats.LSEMeanStdDev, stats.LSEMedianMAD, stats.LSEIKSS, stats.LSESCMedianQn, stats.LSEHistogram}
var mname = []string{"meanstddev", "medianmad", "ikss", "scmedianqn", "histogram"}

func est(m int, d []float32, w int) (loc, scale float32) {
	stats.LSEstimator = modes[m]
	s := stats.NewStats(d, int32(w))
	return s.Location(), s.Scale()
}

// rank interval of q in sorted data: values between the q-e and q+e quantiles
func qint(s []float64, q, e float64) (lo, hi float64) {
	n := float64(len(s))
	i, j := int(math.Floor((q-e)*n))-1, int(math.Ceil((q+e)*n))
	if i < 0 {
		i = 0
	}
	if j >= len(s) {
		j = len(s) - 1
	}
	return s[i], s[j]
}

func f64s(d []float32) []float64 {
	o := make([]float64, len(d))
	for i, v := range d {
		o[i] = float64(v)
	}
	return o
}

func general(c *kit.C, m int, d []float32, w int) {
	before := kit.Copy32(d)
	loc, sc := est(m, d, w)
	for i := range d {
		if d[i] != before[i] {
			c.Fatal("%s changed pixel %d", mname[m], i)
		}
	}
	mi, me, ma, sd := kit.MMM(d)
	mag := math.Max(math.Abs(float64(mi)), math.Abs(float64(ma)))
	if !kit.Finite(loc) || !kit.Finite(sc) || sc < 0 {
		c.Fatal("%s: location %v scale %v", mname[m], loc, sc)
	}
	tol := 1e-6*mag + 1e-30
	if float64(loc) < float64(mi)-tol || float64(loc) > float64(ma)+tol {
		c.Fail("%s: location %v outside pixel range %v..%v", mname[m], loc, mi, ma)
	}
	if mi == ma && (math.Abs(float64(loc-mi)) > 1e-6*mag || float64(sc) > 2e-6*mag) {
		c.Fail("%s: constant image %v has location %v scale %v", mname[m], mi, loc, sc)
	}
	switch m {
	case 0:
		if math.Abs(float64(loc-me)) > 2e-6*mag+1e-30 || math.Abs(float64(sc)-sd) > 1e-3*sd+3e-6*mag {
			c.Fail("meanstddev: %v %v, pixels have %v %v", loc, sc, me, sd)
		}
	case 1:
		s := f64s(d)
		sort.Float64s(s)
		lo, hi := qint(s, 0.5, 0.012)
		if float64(loc) < lo-tol || float64(loc) > hi+tol {
			c.Fail("medianmad: location %v, median range %v..%v", loc, lo, hi)
		}
		for i, v := range d {
			s[i] = math.Abs(float64(v) - float64(loc))
		}
		sort.Float64s(s)
		lo, hi = qint(s, 0.5, 0.012)
		if float64(sc) < lo*1.4825-2*tol || float64(sc) > hi*1.4827+2*tol {
			c.Fail("medianmad: scale %v, MAD range %v..%v", sc, lo*1.4826, hi*1.4826)
		}
	}
	c.Count("estimates", 1)
}

func hostile(r *rand.Rand, kind int) (d []float32, w int, name string) {
	switch kind % 10 {
	case 0: // tiny
		n := 1 + r.Intn(12)
		d = make([]float32, n)
		for i := range d {
			d[i] = float32(r.Intn(4)) * 0.25
		}
		return d, 1 + r.Intn(n), "tiny"
	case 1: // constant
		v := float32([]float64{0, 1, -3, 0.1, 65535, 1e-5, 1234.567}[r.Intn(7)])
		d = make([]float32, 1+r.Intn(3000))
		for i := range d {
			d[i] = v
		}
		return d, 1 + r.Intn(60), "constant"
	case 2: // mostly equal
		d = make([]float32, 100+r.Intn(3000))
		p := r.Float64()
		for i := range d {
			d[i] = 0.5
			if r.Float64() < p*p {
				d[i] = r.Float32()
			}
		}
		return d, 50, "mostlyequal"
	case 3: // one outlier
		d = make([]float32, 2+r.Intn(3000))
		for i := range d {
			d[i] = 100
		}
		d[r.Intn(len(d))] = float32([]float64{0, 101, 65535, -1e6}[r.Intn(4)])
		return d, 2, "oneoutlier"
	case 4: // bimodal, far apart
		d = make([]float32, 200+r.Intn(3000))
		a, b := r.Float64()*100, 1000*r.Float64()
		for i := range d {
			d[i] = float32(a + r.NormFloat64()*0.1)
			if r.Intn(2) == 0 {
				d[i] = float32(b + r.NormFloat64()*0.1)
			}
		}
		return d, 100, "bimodal"
	case 5: // two values
		d = make([]float32, 2+r.Intn(2000))
		k := r.Intn(len(d) + 1)
		for i := range d {
			if i < k {
				d[i] = 7
			} else {
				d[i] = 9
			}
		}
		return d, 2, "twovalues"
	case 6: // quantized
		d = kit.Noise(r, 500+r.Intn(4000), 1000, 0.2+3*r.Float64())
		for i := range d {
			d[i] = float32(math.Round(float64(d[i])))
		}
		return d, 100, "quantized"
	case 7: // heavy tails
		d = make([]float32, 100+r.Intn(3000))
		for i := range d {
			d[i] = float32(math.Exp(6 * r.NormFloat64()))
		}
		return d, 10, "heavytail"
	case 8: // sorted ramp
		d = make([]float32, 100+r.Intn(5000))
		for i := range d {
			d[i] = float32(i) - 1000
		}
		return d, 10, "ramp"
	}
	d = make([]float32, 100+r.Intn(3000)) // saturated
	for i := range d {
		if r.Float64() < 0.6 {
			d[i] = 1
		} else if r.Intn(2) == 0 {
			d[i] = r.Float32()
		}
	}
	return d, 10, "saturated"
}

// histogram judges the histogram estimator: the location is the centre of the
// fullest of 4096 bins, the scale the half width of the interval around it that
// holds 68.27% of the pixels, to the next bin.
func histogram(c *kit.C, d []float32, loc, sc float32) {
	mi, _, ma, _ := kit.MMM(d)
	bw := (float64(ma) - float64(mi)) / 4095
	bins := make([]int, 4096)
	atLoc, inner, outer := 0, 0, 0
	for _, v := range d {
		b := int((float64(v)-float64(mi))/bw + 0.5)
		if b > 4095 {
			b = 4095
		}
		bins[b]++
		x := math.Abs(float64(v) - float64(loc))
		if x <= 0.5*bw {
			atLoc++
		}
		if x <= float64(sc)-1.05*bw {
			inner++
		}
		if x <= float64(sc)+0.05*bw {
			outer++
		}
	}
	most := 0
	for _, b := range bins[1:4095] {
		if b > most {
			most = b
		}
	}
	n := float64(len(d))
	slack := 0.02*float64(most) + 4
	if float64(atLoc) < float64(most)-slack {
		c.Fail("histogram: %d pixels around location %v, the fullest of 4096 bins has %d", atLoc, loc, most)
	}
	if float64(inner) > 0.6827*n+slack || float64(outer) < 0.6827*n-slack {
		c.Fail("histogram: location %v scale %v with bins of %v: interval holds %.3f%% to %.3f%% of the pixels instead of 68.27%%", loc, sc, bw, 100*float64(inner)/n, 100*float64(outer)/n)
	}
	c.Count("histogram definitions", 1)
}

// ikss computes the iterative k-sigma estimators in double precision: median and
// biweight midvariance of the pixels within four sigma, until the spread stays.
func ikss(c *kit.C, d []float32, loc, sc float32) {
	xs := f64s(d)
	sort.Float64s(xs)
	s0 := math.Inf(1)
	for {
		m := xs[len(xs)/2]
		dev := make([]float64, len(xs))
		for i, x := range xs {
			dev[i] = math.Abs(x - m)
		}
		sort.Float64s(dev)
		mad := dev[len(dev)/2]
		if mad == 0 {
			return
		}
		num, den := 0.0, 0.0
		for _, x := range xs {
			y := (x - m) / (9 * mad)
			if math.Abs(y) < 1 {
				num += (x - m) * (x - m) * math.Pow(1-y*y, 4)
				den += (1 - y*y) * (1 - 5*y*y)
			}
		}
		s := math.Sqrt(float64(len(xs))*num) / math.Abs(den)
		if s < 1e-5 { // close to the absolute limit below which the estimator reports zero
			return
		}
		if s0-s < s*1e-5 {
			if math.Abs(float64(loc)-m) > 0.01*s || math.Abs(float64(sc)-0.991*s) > 0.004*s {
				c.Fail("ikss: location %v scale %v, definition gives %v %v", loc, sc, m, 0.991*s)
			}
			c.Count("ikss definitions", 1)
			return
		}
		s0 = s
		i, j := 0, len(xs)
		for xs[i] < m-4*s {
			i++
		}
		for xs[j-1] > m+4*s {
			j--
		}
		xs = xs[i:j]
	}
}

type bg struct {
	loc, sigma, frac float64
	dark, sorted     bool
	amp              float64
}

func (b bg) make(r *rand.Rand, n int) []float32 {
	d := kit.Noise(r, n, b.loc, b.sigma)
	if b.sorted {
		sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
	}
	for i := range d {
		if r.Float64() < b.frac {
			a := b.sigma * (8 + b.amp*r.Float64())
			if b.dark && r.Intn(2) == 0 {
				d[i] = float32(b.loc - a)
			} else {
				d[i] = float32(b.loc + a)
			}
		}
	}
	return d
}

func main() {
	kit.Main("C18", "one evaluation = one image given to one estimator; distinct = estimator x image kind x parameter class observed", func(k *kit.K) {
		n := k.N(60, 1500)
		for i := 0; i < n; i++ {
			for m := range modes {
				k.Case(fmt.Sprintf("hostile/%s/%d", mname[m], i), func(c *kit.C) {
					d, w, name := hostile(c.Rng, i)
					general(c, m, d, w)
					c.Seen(m, name, len(d)%16)
					c.Sample("%s %d pixels", name, len(d))
				})
			}
		}
		// every image of up to 5 pixels over 3 values
		for m := range modes {
			k.Case("exhaustive/"+mname[m], func(c *kit.C) {
				for n := 1; n <= k.N(4, 6); n++ {
					tot := int(math.Pow(3, float64(n)))
					for x := 0; x < tot; x++ {
						d := make([]float32, n)
						for i, y := 0, x; i < n; i++ {
							d[i] = []float32{0, 1, 10}[y%3]
							y /= 3
						}
						general(c, m, d, 1+x%n)
					}
				}
			})
		}
		// images with pixels which are no numbers or infinite: any answer, but an answer
		n = k.N(24, 400)
		for i := 0; i < n; i++ {
			for m := range modes {
				k.Case(fmt.Sprintf("nonfinite/%s/%d", mname[m], i), func(c *kit.C) {
					r := c.Rng
					d, w, name := hostile(r, i/4)
					nan, inf := float32(math.NaN()), float32(math.Inf(1))
					bad := [][]float32{{nan}, {inf}, {-inf, inf}, {nan, inf, -inf, 3e38, -3e38}}[i%4]
					p := []float64{0.01, 0.3, 0.7, 1}[r.Intn(4)]
					for j := range d {
						if r.Float64() < p || j == 0 && r.Intn(2) == 0 {
							d[j] = bad[r.Intn(len(bad))]
						}
					}
					e := kit.Copy32(d)
					est(m, d, w)
					for j := range d {
						if math.Float32bits(d[j]) != math.Float32bits(e[j]) {
							c.Fatal("%s changed pixel %d of an image with non-finite pixels", mname[m], j)
						}
					}
					c.Count("estimates of non-finite images", 1)
					c.Seen("nonfinite", m, i%4, name, p)
				})
			}
		}
		// accuracy
		n = k.N(24, 400)
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("background/%d", i), func(c *kit.C) {
				r := c.Rng
				b := bg{loc: math.Pow(10, r.Float64()*6-2), frac: []float64{0, 0.01, 0.03, 0.05}[i%4], dark: i%3 == 0, sorted: i%5 == 4, amp: []float64{4, 50, 1000}[(i/2)%3]}
				b.sigma = b.loc * math.Pow(10, -0.7-2*r.Float64())
				px := 30000 + r.Intn(80000)
				d := b.make(r, px)
				for m := 1; m < len(modes); m++ {
					if m == 4 && (b.amp > 60 || b.sorted && false) {
						continue
					}
					general(c, m, d, 200)
					loc, sc := est(m, d, 200)
					el, es := (float64(loc)-b.loc)/b.sigma, float64(sc)/b.sigma
					tl, lo, hi := 0.12, 0.9, 1.16
					switch m {
					case 4:
						tl, lo, hi = 0.8, 0.6, 1.6
					case 3:
						tl, lo, hi = 0.05, 0.96, 1.2
						if b.sorted { // pairs are not drawn uniformly
							lo, hi = 0.5, 1.6
						}
					case 2:
						tl, lo, hi = 0.045, 0.96, 1.04
					}
					if b.frac == 0 && m != 4 {
						tl = 0.04
						lo, hi = math.Max(lo, 0.95), math.Min(hi, 1.05)
						if m == 3 && b.sorted {
							lo, hi = 0.5, 1.6
						}
					}
					if math.Abs(el) > tl || es < lo || es > hi {
						c.Fail("%s: background %v sigma %v with %v%% outliers (amp %v dark %v): location off by %.3f sigma, scale %.3f sigma", mname[m], b.loc, b.sigma, b.frac*100, b.amp, b.dark, el, es)
					}
					if m == 4 {
						histogram(c, d, loc, sc)
					}
					if m == 2 {
						ikss(c, d, loc, sc)
					}
					c.Seen("bg", m, b.frac, b.dark, b.sorted, b.amp, i%8)
				}
				c.Sample("loc %.4g sigma %.4g outliers %g%% x%g", b.loc, b.sigma, 100*b.frac, b.amp)
				// equivariance
				mul, add := math.Pow(2, float64(r.Intn(9)-4)), b.sigma*float64(r.Intn(40))
				if i%2 == 0 {
					mul = 0.3 + 3*r.Float64()
				}
				e := make([]float32, len(d))
				for j := range d {
					e[j] = float32(float64(d[j])*mul + add)
				}
				for m := range modes {
					if m == 4 && b.amp > 60 {
						continue
					}
					l1, s1 := est(m, d, 200)
					l2, s2 := est(m, e, 200)
					s := b.sigma * mul
					dl := math.Abs(float64(l2)-(float64(l1)*mul+add)) / s
					ds := math.Abs(float64(s2)-float64(s1)*mul) / s
					tl, ts := 0.05, 0.06
					switch m {
					case 0:
						tl, ts = 0.01, 0.02*math.Max(1, float64(s1)/b.sigma)
					case 4:
						tl, ts = 1.2, 0.6
					case 2:
						tl, ts = 0.03, 0.05
					}
					if dl > tl || ds > ts {
						c.Fail("%s: not equivariant under x*%v+%v: location %v -> %v (off %.3f sigma), scale %v -> %v (off %.3f sigma)", mname[m], mul, add, l1, l2, dl, s1, s2, ds)
					}
					c.Count("equivariance pairs", 1)
				}
			})
		}
		// the clipped median and MAD used for background cells
		for i := 0; i < k.N(30, 300); i++ {
			k.Case(fmt.Sprintf("scmedianmad/%d", i), func(c *kit.C) {
				b := bg{loc: 1000, sigma: 10, frac: []float64{0, 0.05, 0.1}[i%3], dark: i%2 == 0, amp: 40}
				d := b.make(c.Rng, 4000)
				e := kit.Copy32(d)
				l, s := stats.SigmaClippedMedianAndMAD(e, 2.5, 2.5)
				if math.Abs(float64(l)-b.loc) > 2 || s < 8.8 || s > 12.2 {
					c.Fail("clipped median %v MAD %v for background 1000 sigma 10 with %v outliers", l, s, b.frac)
				}
				for j := range d {
					if d[j] != e[j] {
						c.Fatal("changed its input")
					}
				}
				c.Seen("scmm", i%6)
			})
		}
	})
}
