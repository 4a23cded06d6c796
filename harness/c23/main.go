// C23: monitor for debanding: the factor applied to each row (column) is
// measured from the pixels and compared with the ratio of the moving median of
// row percentiles to the row's own percentile.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// lines returns the rows or columns of the data
func lines(d []float32, w, h int, vert bool) (ls [][]float32) {
	n, m := h, w
	if vert {
		n, m = w, h
	}
	for i := 0; i < n; i++ {
		l := make([]float32, m)
		for j := range l {
			if vert {
				l[j] = d[j*w+i]
			} else {
				l[j] = d[i*w+j]
			}
		}
		ls = append(ls, l)
	}
	return
}

func mkop(vert bool, perc float32, win int32, sigma float32) ops.Operator {
	if vert {
		return pre.NewOpDebandVert(perc, win, sigma)
	}
	return pre.NewOpDebandHoriz(perc, win, sigma)
}

// percentile of the values up to the threshold. amb: another rounding would give near instead
func percentile(l []float32, perc, thr float64) (p, near float64, amb, ok bool) {
	var v []float32
	for _, x := range l {
		if float64(x) <= thr {
			v = append(v, x)
		}
		if math.Abs(float64(x)-thr) < 1e-4*math.Abs(thr)+1e-9 {
			amb = true
		}
	}
	if len(v) == 0 {
		v = l // nothing below the threshold
	}
	s := kit.Sorted(v)
	q := float64(len(s)) * perc / 100
	at := func(k int) float64 { // k-th smallest, from 1
		if k < 1 {
			k = 1
		}
		if k > len(s) {
			k = len(s)
		}
		return float64(s[k-1])
	}
	k := int(q)
	p, near = at(k), at(k)
	if r := math.Round(q); math.Abs(q-r) < 1e-3 {
		p, near = at(int(r)), at(int(r)-1)
	}
	if amb {
		near = at(k - 1)
		if x := at(k + 1); math.Abs(x-p) > math.Abs(near-p) {
			near = x
		}
	}
	return p, near, amb, true
}

func median64(a []float64) float64 {
	f := make([]float32, len(a))
	for i := range a {
		f[i] = float32(a[i])
	}
	return float64(kit.Median(f))
}

// target level of each line: median of the window around it. Where the window
// leaves the image, the missing levels are extrapolated linearly.
func targets(ps []float64, win int) (ts []float64) {
	n := len(ps)
	if win > n {
		win = n
	}
	for i := range ps {
		lo := i - win/2
		hi := lo + win
		a, b := lo, hi
		if a < 0 {
			a, b = 0, win
		} else if b > n {
			a, b = n-win, n
		}
		buf := append([]float64(nil), ps[a:b]...)
		if a != lo {
			half := win / 2
			l, r := median64(buf[:half]), median64(buf[half:])
			mean, slope := (l+r)/2, (r-l)/(float64(win)/2)
			for j := 0; j < a-lo; j++ { // levels lo..-1 replace those which are not part of the window
				buf[win-(a-lo)+j] = mean + slope*(float64(-(a-lo)+j)-float64(win)/2)
			}
			for j := 0; j < lo-a; j++ {
				buf[j] = mean + slope*(float64(win+j)-float64(win)/2)
			}
		}
		ts = append(ts, median64(buf))
	}
	return
}

// measure returns the one factor applied to a line
func measure(c *kit.C, in, out []float32, what string) float64 {
	best := 0
	for j := range in {
		if !kit.Finite(out[j]) {
			c.Fatal("%s: %v becomes %v", what, in[j], out[j])
		}
		if math.Abs(float64(in[j])) > math.Abs(float64(in[best])) {
			best = j
		}
	}
	if in[best] == 0 {
		return 1
	}
	f := float64(out[best]) / float64(in[best])
	for j := range in {
		want := float64(in[j]) * f
		if math.Abs(float64(out[j])-want) > 1e-6*math.Abs(want)+1e-37 {
			c.Fatal("%s: pixel %d becomes %v, factor of the line is %v, so want %v", what, j, out[j], f, want)
		}
	}
	return f
}

func content(r *rand.Rand, w, h int, vert bool) []float32 {
	d := kit.Noise(r, w*h, 1000, 30*r.Float64())
	kind := r.Intn(4)
	grad := 0.3 * r.NormFloat64()
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			i := x
			if !vert {
				i = y
			}
			f := 1.0
			switch kind {
			case 0: // one line off
				if i%7 == 3 {
					f = 1.1
				}
			case 1: // each line off
				f = 1 + 0.1*math.Sin(float64(i*i*7))
			case 2: // gradient and bands
				f = 1 + 0.05*math.Sin(float64(i*i*3)) + grad*float64(i)/float64(w+h)
			}
			d[y*w+x] *= float32(f)
		}
	}
	if r.Intn(2) == 0 {
		for n := r.Intn(1 + w*h/30); n > 0; n-- {
			d[r.Intn(w*h)] = float32(20000 + 30000*r.Float64())
		}
	}
	return d
}

func main() {
	kit.Main("C23", "one evaluation = one image debanded; distinct = direction x size x window x percentile x sigma", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(400, 6000); i++ {
			k.Case(fmt.Sprintf("bands/%d", i), func(c *kit.C) {
				r := c.Rng
				vert := i%2 == 1
				w, h := 1+r.Intn(70), 1+r.Intn(70)
				if i%25 == 3 {
					w, h = 100+r.Intn(200), 100+r.Intn(300)
				}
				if i == 17 || i == 18 { // as wide as a camera chip
					w, h = 4200+r.Intn(500), 251+r.Intn(30)
					if r.Intn(2) == 0 {
						w, h = h, w
					}
				}
				d := content(r, w, h, vert)
				perc := []float32{50, 25, 90, 5, 1, 99, 99.9, float32(0.1 + 99*r.Float64())}[r.Intn(8)]
				win := []int32{1, 2, 3, 5, 8, 16, 31, 64, 128, 1000}[r.Intn(10)]
				sigma := float32([]float64{0, 0, 3, 1, 0.5, 6, -0.5}[r.Intn(7)])
				f := kit.Img(i, w, h, kit.Copy32(d))
				f.FileName, f.Exposure = "band", 2
				f.Stats.Mean()
				f.Stats.StdDev()
				m := kit.MetaOf(f)
				_, me, _, sd := kit.MMM(d)
				thr := math.Inf(1)
				if sigma != 0 {
					thr = float64(me) + float64(sigma)*sd
				}
				what := fmt.Sprintf("vert=%v %dx%d percentile %v window %d sigma %v", vert, w, h, perc, win, sigma)
				ctx, _ := kit.Context()
				out, err := kit.Run1(mkop(vert, perc, win, sigma), f, ctx)
				if err != nil || out == nil {
					c.Fatal("%s: %v", what, err)
				}
				kit.CheckMeta(c, out, m, what)
				li, lo := lines(d, w, h, vert), lines(out.Data, w, h, vert)
				ps := make([]float64, len(li))
				slack := 0.0
				for j, l := range li {
					p, near, _, _ := percentile(l, float64(perc), thr)
					ps[j] = p
					slack = math.Max(slack, math.Abs(near-p)/math.Abs(p))
				}
				ts := targets(ps, int(win))
				n := 0
				for j := range li {
					fac := measure(c, li[j], lo[j], fmt.Sprintf("%s line %d", what, j))
					want := ts[j] / ps[j]
					if !(want > 0) {
						continue
					}
					tol := 2e-5 + 6*slack
					if slack > 0 && int(win) >= len(li)/2 {
						tol += 6 * slack
					}
					if math.Abs(fac-want) > tol*want {
						c.Fatal("%s: line %d of %d with level %v scaled by %v, window level is %v, so want %v", what, j, len(li), ps[j], fac, ts[j], want)
					}
					if slack == 0 {
						n++
					}
				}
				kit.CheckStats(c, out, what)
				c.Count("lines compared exactly", n)
				c.Seen(vert, w, h, win, perc, sigma)
				c.Sample("%s", what)
			})
			k.Case(fmt.Sprintf("hostile/%d", i), func(c *kit.C) {
				r := c.Rng
				vert := i%2 == 1
				w, h := 1+r.Intn(24), 1+r.Intn(24)
				d := make([]float32, w*h)
				kind := r.Intn(9)
				for j := range d {
					x, y := j%w, j/w
					ln := y
					if vert {
						ln = x
					}
					switch kind {
					case 0:
						d[j] = 0
					case 1:
						d[j] = 5
					case 2: // around zero, as after background extraction
						d[j] = float32(10 * r.NormFloat64())
					case 3: // lines far above all others
						d[j] = float32(100 + r.Intn(5))
						if ln%5 == 1 {
							d[j] += 60000
						}
					case 4: // black lines
						d[j] = float32(100 + r.Intn(5))
						if ln%3 == 1 {
							d[j] = 0
						}
					case 5:
						d[j] = float32(r.Intn(2))
					case 6:
						d[j] = float32(-1000 + 100*r.NormFloat64())
					case 7: // levels of alternating sign
						d[j] = float32(100 * (1 - 2*(ln&1)))
					default: // steep ramp, extrapolates below zero
						d[j] = float32(ln*ln) + 0.5
					}
				}
				perc := []float32{50, 0.001, 99.999, 10, 99.99999, 100, 0, -5, 120, 1}[r.Intn(10)]
				win := []int32{128, 1, 2, 3, 7, 0, -1, -128, 1 << 30}[r.Intn(9)]
				sigma := float32([]float64{3, 0, 1, -3, -0.1, 1000}[r.Intn(6)])
				f := kit.Img(i, w, h, kit.Copy32(d))
				m := kit.MetaOf(f)
				ctx, _ := kit.Context()
				what := fmt.Sprintf("vert=%v %dx%d kind %d percentile %v window %d sigma %v", vert, w, h, kind, perc, win, sigma)
				out, err := kit.Run1(mkop(vert, perc, win, sigma), f, ctx)
				if err != nil || out == nil {
					c.Fatal("%s: %v", what, err)
				}
				kit.CheckMeta(c, out, m, what)
				li, lo := lines(d, w, h, vert), lines(out.Data, w, h, vert)
				for j := range li {
					fac := measure(c, li[j], lo[j], fmt.Sprintf("%s line %d", what, j))
					if fac <= 0 {
						c.Fatal("%s: line %d inverted or blanked, factor %v", what, j, fac)
					}
					if (win <= 0 || perc <= 0 || perc >= 100 || kind == 1) && math.Abs(fac-1) > 1e-6 {
						c.Fatal("%s: line %d changed by %v", what, j, fac)
					}
				}
				c.Count("hostile images survived", 1)
				c.Seen("hostile", kind, perc, win, sigma, vert)
			})
		}
	})
}
