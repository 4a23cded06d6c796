// Package stackref defines the per-pixel stacking statistics, in float64 and
// straight from their definitions. A model result is ambiguous when one of its
// clipping decisions lies within float32 rounding of its bound.
package stackref

import (
	"math"
	"sort"
)

const (
	Median = iota
	Mean
	Sigma
	Winsor
	MAD
	LinFit
	Auto
)

type V struct{ X, W float64 }

// R is what the model says about one pixel.
type R struct {
	Want      []float64 // acceptable values
	Min, Max  float64   // of the valid values
	Ambiguous bool      // only Min..Max is known
	Clipped   int
	Tol       float64
}

func AutoMode(n int) int {
	switch {
	case n >= 25:
		return LinFit
	case n >= 15:
		return Winsor
	case n >= 6:
		return Sigma
	}
	return Mean
}

func median(vs []V) float64 {
	x := make([]float64, len(vs))
	for i, v := range vs {
		x[i] = v.X
	}
	sort.Float64s(x)
	n := len(x)
	if n%2 == 1 {
		return x[n/2]
	}
	return (x[n/2-1] + x[n/2]) / 2
}

func meanSD(x []float64) (m, s float64) {
	for _, v := range x {
		m += v
	}
	m /= float64(len(x))
	for _, v := range x {
		s += (v - m) * (v - m)
	}
	return m, math.Sqrt(s / float64(len(x)))
}

func xs(vs []V) []float64 {
	o := make([]float64, len(vs))
	for i, v := range vs {
		o[i] = v.X
	}
	return o
}

func wmean(vs []V) float64 {
	a, b := 0.0, 0.0
	for _, v := range vs {
		a += v.X * v.W
		b += v.W
	}
	return a / b
}

// Pixel computes the statistic of the valid values of one pixel. Weighted
// selects weighted averaging where the mode supports it.
func Pixel(mode int, vs []V, weighted bool, lo, hi float64) (r R) {
	r.Min, r.Max = math.Inf(1), math.Inf(-1)
	ma := 0.0
	for _, v := range vs {
		r.Min = math.Min(r.Min, v.X)
		r.Max = math.Max(r.Max, v.X)
		ma = math.Max(ma, math.Abs(v.X))
	}
	r.Tol = 4e-6*ma + 1e-30
	gap := 2e-5*ma + 1e-30
	if !weighted || mode == Median || mode == LinFit || mode == MAD {
		vs = append([]V(nil), vs...)
		for i := range vs {
			vs[i].W = 1
		}
	}
	near := func(a, b float64) {
		if math.Abs(a-b) < gap {
			r.Ambiguous = true
		}
	}
	split := func(cur []V, l, h float64) (left []V) {
		for _, v := range cur {
			near(v.X, l)
			near(v.X, h)
			if v.X >= l && v.X <= h {
				left = append(left, v)
			}
		}
		return
	}
	switch mode {
	case Median:
		r.Want = []float64{median(vs)}
	case Mean:
		r.Want = []float64{wmean(vs)}
	case MAD:
		m := median(vs)
		ad := make([]V, len(vs))
		for i, v := range vs {
			ad[i].X = math.Abs(v.X - m)
		}
		sd := median(ad) * 1.4826
		if sd == 0 { // bounds equal the median, values equal to it stay
			r.Ambiguous = false
			var left []V
			for _, v := range vs {
				if v.X == m {
					left = append(left, v)
				} else {
					near(v.X, m)
				}
			}
			r.Clipped = len(vs) - len(left)
			r.Want = []float64{wmean(left)}
			return
		}
		left := split(vs, m-lo*sd, m+hi*sd)
		r.Clipped = len(vs) - len(left)
		if len(left) == 0 {
			r.Ambiguous = true
		} else {
			r.Want = []float64{wmean(left)}
		}
	case Sigma, Winsor:
		cur := vs
		for {
			m := median(cur)
			_, sd := meanSD(xs(cur))
			if mode == Winsor {
				w := xs(cur)
				for sd > 0 {
					l, h := m-1.5*sd, m+1.5*sd
					ch := false
					for i, v := range w {
						near(v, l)
						near(v, h)
						if v < l {
							w[i], ch = l, true
						} else if v > h {
							w[i], ch = h, true
						}
					}
					old := sd
					_, sd = meanSD(w)
					sd *= 1.134
					f := math.Abs(sd-old) / old
					if math.Abs(f-0.0005) < 2e-5 {
						r.Ambiguous = true
					}
					if !ch || f <= 0.0005 {
						break
					}
				}
			}
			left := split(cur, m-lo*sd, m+hi*sd)
			r.Clipped += len(cur) - len(left)
			if len(left) == len(cur) {
				r.Want = append(r.Want, wmean(cur))
				return
			}
			if len(left) <= 1 {
				// everything but one value consumed: the last average or what is left
				if weighted && len(left) == 1 {
					r.Want = append(r.Want, left[0].X)
				} else if len(left) == 0 && weighted {
					r.Want = append(r.Want, m, wmean(cur))
				} else {
					r.Want = append(r.Want, wmean(cur), m)
					if len(left) == 1 {
						r.Want = append(r.Want, left[0].X)
					}
				}
				return
			}
			cur = left
		}
	case LinFit:
		x := xs(vs)
		sort.Float64s(x)
		for {
			n := len(x)
			mx := float64(n-1) / 2
			my, sdy := meanSD(x)
			sxy, sxx := 0.0, 0.0
			for i, v := range x {
				sxy += (float64(i) - mx) * (v - my)
				sxx += (float64(i) - mx) * (float64(i) - mx)
			}
			slope := 0.0
			if sxx > 0 {
				slope = sxy / sxx
			}
			ic := my - slope*mx
			sg := 0.0
			for i, v := range x {
				sg += math.Abs(v - ic - slope*float64(i))
			}
			sg /= float64(n)
			r.Want = []float64{my}
			if n == 1 || sdy == 0 {
				return
			}
			var left []float64
			for i, v := range x {
				d := v - ic - slope*float64(i)
				near(-d, lo*sg)
				near(d, hi*sg)
				if -d <= lo*sg && d <= hi*sg {
					left = append(left, v)
				}
			}
			r.Clipped += n - len(left)
			if len(left) == n {
				return
			}
			if len(left) == 0 || n < 3 {
				return
			}
			x = left
		}
	}
	return
}

// OK tells whether a stacked value agrees with the model.
func (r R) OK(v float32) bool {
	x := float64(v)
	if !(x >= r.Min-r.Tol && x <= r.Max+r.Tol) {
		return false
	}
	if r.Ambiguous {
		return true
	}
	for _, w := range r.Want {
		if math.Abs(w-x) <= r.Tol {
			return true
		}
	}
	return false
}
