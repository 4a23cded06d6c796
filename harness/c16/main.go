// C16: sorting, selection and medians against a sorted reference; SIMD kernels
// on arrays that touch inaccessible pages, against a float64 reference.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime/debug"
	"sort"

	"github.com/klauspost/cpuid"
	"github.com/mlnoga/nightlight/internal/median"
	"github.com/mlnoga/nightlight/internal/qsort"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func sorted(a []float32) []float32 {
	b := append([]float32(nil), a...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

func equal(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// judge runs all sorting and selection functions on copies of the array.
func judge(c *kit.C, in []float32) {
	n := len(in)
	ref := sorted(in)
	buf := make([]float32, n+2)
	use := func() []float32 { // array between canaries
		buf[0], buf[n+1] = -1e30, -1e30
		copy(buf[1:], in)
		return buf[1 : n+1 : n+1]
	}
	check := func(what string, a []float32) {
		if buf[0] != -1e30 || buf[n+1] != -1e30 {
			c.Fatal("%s of %v wrote outside the array", what, clip(in))
		}
		if !equal(sorted(a), ref) {
			c.Fatal("%s of %v left %v, not a permutation", what, clip(in), clip(a))
		}
	}
	a := use()
	qsort.QSortFloat32(a)
	check("QSortFloat32", a)
	if !equal(a, ref) {
		c.Fatal("QSortFloat32 of %v gives %v", clip(in), clip(a))
	}
	if n == 0 {
		return
	}
	a = use()
	m := qsort.QSelectMedianFloat32(a)
	check("QSelectMedianFloat32", a)
	want := ref[n/2]
	if n%2 == 0 {
		want = 0.5 * (ref[n/2-1] + ref[n/2])
	}
	if !kit.Near(m, want, 0, 1e-6) {
		c.Fatal("median of %v is %v, want %v", clip(in), m, want)
	}
	a = use()
	if m = median.MedianFloat32(a); !kit.Near(m, want, 0, 1e-6) {
		c.Fatal("MedianFloat32 of %v is %v, want %v", clip(in), m, want)
	}
	if n != 9 {
		check("MedianFloat32", a)
	}
	a = use()
	q := qsort.QSelectFirstQuartileFloat32(a)
	check("QSelectFirstQuartileFloat32", a)
	if q != ref[n/4] {
		c.Fatal("first quartile of %v is %v, want %v, sorted %v", clip(in), q, ref[n/4], clip(ref))
	}
	step := 1
	if n > 64 {
		step = n / 37
	}
	for k := 1; k <= n; k += step {
		a = use()
		v := qsort.QSelectFloat32(a, k)
		check("QSelectFloat32", a)
		if v != ref[k-1] {
			c.Fatal("QSelectFloat32(%v, %d) is %v, want %v", clip(in), k, v, ref[k-1])
		}
	}
	if n > 1 {
		a = use()
		p := qsort.QPartitionFloat32(a)
		check("QPartitionFloat32", a)
		if p < 0 || p >= n-1 && n > 1 && p != n-1 {
			c.Fatal("partition of %v at %d", clip(in), p)
		}
		x := sorted(a[:p+1])
		y := sorted(a[p+1:])
		if len(x) > 0 && len(y) > 0 && x[len(x)-1] > y[0] {
			c.Fatal("partition of %v at %d gives %v", clip(in), p, clip(a))
		}
	}
	// stars by descending mass
	ss := make([]star.Star, n)
	for i, v := range in {
		ss[i] = star.Star{Mass: v, Index: int32(i)}
	}
	star.QSortStarsDesc(ss)
	seen := make([]bool, n)
	for i, s := range ss {
		if s.Mass != ref[n-1-i] || seen[s.Index] || in[s.Index] != s.Mass {
			c.Fatal("QSortStarsDesc of masses %v: position %d has mass %v, want %v", clip(in), i, s.Mass, ref[n-1-i])
		}
		seen[s.Index] = true
	}
	c.Count("arrays", 1)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func clip(a []float32) []float32 {
	if len(a) > 24 {
		return a[:24]
	}
	return a
}

func fill(r *rand.Rand, a []float32) string {
	k := r.Intn(13)
	n := len(a)
	for i := range a {
		switch k {
		case 0:
			a[i] = float32(i)
		case 1:
			a[i] = float32(n - i)
		case 2:
			a[i] = 3
		case 3:
			a[i] = float32(r.Intn(2))
		case 4:
			a[i] = float32(r.Intn(5)) - 2
		case 5:
			if i < n/2 {
				a[i] = float32(i)
			} else {
				a[i] = float32(n - i)
			}
		case 6:
			a[i] = float32(i % 7)
		case 7:
			a[i] = float32(math.Exp(60*r.NormFloat64() - 2))
			if a[i] > 3e38 {
				a[i] = 3e38
			}
			if r.Intn(2) == 0 {
				a[i] = -a[i]
			}
		case 8:
			a[i] = math.Float32frombits(uint32(r.Intn(64))) // denormals and zero
		case 9:
			a[i] = []float32{float32(math.Inf(1)), float32(math.Inf(-1)), 0, 1, math.MaxFloat32, -math.MaxFloat32, float32(math.Copysign(0, -1))}[r.Intn(7)]
		case 10:
			a[i] = float32(i ^ (i >> 1))
		default:
			a[i] = float32(r.NormFloat64())
		}
	}
	return fmt.Sprint("k", k)
}

// killer builds an array that makes middle-pivot quicksort quadratic.
func killer(n int) []float32 {
	a := make([]float32, n)
	for i := range a {
		a[i] = float32(i)
	}
	for i := n - 1; i > 0; i-- {
		m := i / 2
		a[m], a[i] = a[i], a[m]
	}
	return a
}

func guarded(c *kit.C, data []float32, atEnd bool, f func(a []float32)) {
	g := kit.NewGuarded(len(data), atEnd)
	defer g.Free()
	copy(g.A, data)
	f(g.A)
	if !g.Intact() {
		c.Fatal("wrote outside an array of %d elements", len(data))
	}
	for i := range data {
		if !kit.Same(g.A[i], data[i]) {
			c.Fatal("changed its input at %d of %d", i, len(data))
		}
	}
}

// kernels checks statistics and noise of data of a given line width.
func kernels(c *kit.C, data []float32, width int, atEnd bool) {
	mi, me, ma, sd := kit.MMM(data)
	mag := math.Max(math.Abs(float64(mi)), math.Abs(float64(ma)))
	guarded(c, data, atEnd, func(a []float32) {
		s := stats.NewStats(a, int32(width))
		switch c.Rng.Intn(3) {
		case 0:
			s.StdDev()
		case 1:
			s.Noise()
		}
		if s.Min() != mi || s.Max() != ma {
			c.Fatal("%d elements: min %v max %v, want %v %v", len(a), s.Min(), s.Max(), mi, ma)
		}
		if math.Abs(float64(s.Mean()-me)) > 1e-6*mag+1e-30 {
			c.Fatal("%d elements: mean %v, want %v", len(a), s.Mean(), me)
		}
		if math.Abs(float64(s.StdDev())-sd) > 1e-4*sd+2e-6*mag {
			c.Fatal("%d elements: stddev %v, want %v", len(a), s.StdDev(), sd)
		}
		height := len(a) / width
		if width >= 3 && height >= 3 {
			sum := 0.0
			for y := 1; y < height-1; y++ {
				for x := 1; x < width-1; x++ {
					v := func(dx, dy int) float64 { return float64(a[(y+dy)*width+x+dx]) }
					sum += math.Abs(v(-1, -1) - 2*v(0, -1) + v(1, -1) - 2*v(-1, 0) + 4*v(0, 0) - 2*v(1, 0) + v(-1, 1) - 2*v(0, 1) + v(1, 1))
				}
			}
			want := sum * math.Sqrt(0.5*math.Pi) / (6 * float64(width-2) * float64(height-2))
			if got := float64(s.Noise()); math.Abs(got-want) > 1e-3*want+1e-5*mag {
				c.Fatal("noise of %dx%d is %v, want %v", width, height, got, want)
			}
		} else if v := s.Noise(); v != v {
			c.Fatal("noise of %dx%d is NaN", width, height)
		}
	})
}

func filter(c *kit.C, data []float32, width int, atEnd bool) {
	height := len(data) / width
	out := kit.NewGuarded(len(data), atEnd)
	defer out.Free()
	guarded(c, data, atEnd, func(a []float32) {
		for i := range out.A {
			out.A[i] = 1e20
		}
		median.MedianFilter3x3(out.A, a, int32(width))
	})
	if !out.Intact() {
		c.Fatal("median filter of %dx%d wrote outside its output", width, height)
	}
	var w [9]float32
	for y := 0; y < height; y++ {
		for x := 0; x < width; x++ {
			want := data[y*width+x]
			if x > 0 && y > 0 && x < width-1 && y < height-1 {
				for j := range w {
					w[j] = data[(y+j/3-1)*width+x+j%3-1]
				}
				sort.Slice(w[:], func(i, j int) bool { return w[i] < w[j] })
				want = w[4]
			}
			if got := out.A[y*width+x]; got != want {
				c.Fatal("median filter of %dx%d at %d,%d: %v, want %v", width, height, x, y, got, want)
			}
		}
	}
	if width >= 3 && height >= 3 {
		o := make([]float32, 3*width)
		for i := range o {
			o[i] = 1e20
		}
		y := c.Rng.Intn(height - 2)
		median.MedianFilterLine3x3PureGo(o, data[y*width:(y+3)*width], int32(width))
		for x := range o {
			if inner := x > width && x < 2*width-1; inner && o[x] != out.A[(y+1)*width+x-width] || !inner && o[x] != 1e20 {
				c.Fatal("portable median line of width %d at %d: %v", width, x, o[x])
			}
		}
	}
}

func main() {
	debug.SetPanicOnFault(true)
	kit.Main("C16", "distinct array length and content classes, image shapes and kernel variants judged", func(k *kit.K) {
		k.Case("exhaustive/values", func(c *kit.C) { // all arrays over four values
			maxLen := k.N(7, 9)
			for n := 0; n <= maxLen; n++ {
				tot := 1
				for i := 0; i < n; i++ {
					tot *= 4
				}
				a := make([]float32, n)
				for x := 0; x < tot; x++ {
					for i, y := 0, x; i < n; i, y = i+1, y/4 {
						a[i] = float32(y % 4)
					}
					judge(c, a)
				}
				c.Seen("values", n)
			}
		})
		k.Case("exhaustive/permutations", func(c *kit.C) {
			for n := 1; n <= k.N(7, 9); n++ {
				a := make([]float32, n)
				for i := range a {
					a[i] = float32(i)
				}
				var rec func(i int)
				rec = func(i int) {
					if i == n {
						judge(c, a)
						return
					}
					for j := i; j < n; j++ {
						a[i], a[j] = a[j], a[i]
						rec(i + 1)
						a[i], a[j] = a[j], a[i]
					}
				}
				rec(0)
				c.Seen("perm", n)
			}
		})
		k.Case("exhaustive/median9", func(c *kit.C) {
			// 0/1 arrays decide min/max networks completely
			for x := 0; x < 512; x++ {
				a := make([]float32, 9)
				ones := 0
				for i := range a {
					a[i] = float32(x >> i & 1)
					ones += x >> i & 1
				}
				want := float32(0)
				if ones >= 5 {
					want = 1
				}
				if m := median.MedianFloat32Slice9(append([]float32(nil), a...)); m != want {
					c.Fatal("median of %v is %v", a, m)
				}
				data := append([]float32(nil), a...)
				c.Seen("m9", x)
				filter(c, data, 3, true)
				// the same windows at all positions of the vector kernel
				for _, w := range []int{8, 9, 14, 21} {
					d := make([]float32, 3*w)
					for i := range d {
						d[i] = a[i%w%3+3*(i/w)]
					}
					filter(c, d, w, true)
				}
			}
		})
		for i := 0; i < k.N(200, 2000); i++ {
			k.Case(fmt.Sprintf("random/%d", i), func(c *kit.C) {
				for j := 0; j < 40; j++ {
					n := 1 + c.Rng.Intn(70)
					if j%10 == 0 {
						n = 1 + c.Rng.Intn(3000)
					}
					a := make([]float32, n)
					kind := fill(c.Rng, a)
					if c.Rng.Intn(12) == 0 {
						a, kind = killer(n), "killer"
					}
					judge(c, a)
					c.Seen("r", n, kind)
				}
			})
		}
		// gathered medians at all positions of small images
		for i := 0; i < k.N(2, 20); i++ {
			k.Case(fmt.Sprintf("long/%d", i), func(c *kit.C) {
				a := kit.Noise(c.Rng, 131073+c.Rng.Intn(100000), 5, 1)
				judge(c, a)
				for j := range a {
					a[j] = float32(int(a[j] * 10)) // duplicates
				}
				judge(c, a)
				c.Seen("long", len(a))
			})
		}
		for i := 0; i < k.N(80, 800); i++ {
			k.Case(fmt.Sprintf("gather/%d", i), func(c *kit.C) {
				w, h := 1+c.Rng.Intn(9), 1+c.Rng.Intn(9)
				data := make([]float32, w*h)
				fill(c.Rng, data)
				for i := range data {
					if math.IsInf(float64(data[i]), 0) {
						data[i] = 5
					}
				}
				for rep := 0; rep < 6; rep++ {
					m := 1 + c.Rng.Intn(25)
					if rep%2 == 0 {
						m = 9
					}
					mask := make([]int32, m)
					for i := range mask {
						mask[i] = int32((c.Rng.Intn(5)-2)*w + c.Rng.Intn(5) - 2)
					}
					mask[0] = 0
					buf := make([]float32, m)
					guarded(c, data, rep%3 == 0, func(a []float32) {
						for idx := range a {
							var vs []float32
							for _, o := range mask {
								if j := idx + int(o); j >= 0 && j < len(a) {
									vs = append(vs, a[j])
								}
							}
							fill(c.Rng, buf) // stale content
							got := median.GatherAndMedian(a, int32(idx), mask, buf)
							if want := kit.Median(vs); !kit.Near(got, want, 0, 1e-6) {
								c.Fatal("gathered median at %d of %dx%d with mask %v is %v, want %v of %v", idx, w, h, mask, got, want, vs)
							}
							c.Count("gathered", 1)
						}
					})
					c.Seen("g", w, h, m)
				}
			})
		}
		// kernels with and without AVX2
		have := cpuid.CPU.AVX2()
		for _, avx := range []bool{true, false} {
			if avx && !have {
				continue
			}
			avx := avx
			run := func(name string, f func(c *kit.C)) {
				k.Case(fmt.Sprintf("%s/avx=%v", name, avx), func(c *kit.C) {
					old := cpuid.CPU.Features
					defer func() { cpuid.CPU.Features = old }()
					if !avx {
						cpuid.CPU.Features &^= cpuid.AVX2
					}
					f(c)
				})
			}
			maxLen := k.N(200, 1100)
			run("lengths", func(c *kit.C) {
				for n := 1; n <= maxLen; n++ {
					for _, atEnd := range []bool{true, false} {
						d := kit.Noise(c.Rng, n, 5, 1)
						if n%3 == 0 { // all of one sign, far from zero
							d = kit.Noise(c.Rng, n, -80, 1)
						}
						d[c.Rng.Intn(n)] += float32(c.Rng.Intn(3)-1) * 20
						kernels(c, d, n, atEnd)
						kernels(c, d, 1+c.Rng.Intn(n), atEnd)
						c.Count("kernel_arrays", 2)
					}
					c.Seen("len", n, avx)
				}
				// extreme value at each position
				for n := 1; n <= 70; n++ {
					for p := 0; p < n; p++ {
						d := kit.Noise(c.Rng, n, 0, 1)
						d[p] = []float32{40, -40}[p&1]
						kernels(c, d, 1+n/5, n&1 == 0)
					}
				}
			})
			run("camera", func(c *kit.C) { // as wide as a camera chip
				w := 4200 + c.Rng.Intn(500)
				filter(c, kit.Noise(c.Rng, w*21, 3, 1), w, true)
				filter(c, kit.Noise(c.Rng, w*21, 3, 1), 21, true)
				c.Seen("camera", avx)
			})
			run("large", func(c *kit.C) { // more pixels than float32 can count
				w, h := 8192, 2560
				if k.Thorough() {
					h = 7000
				}
				d := kit.Noise(c.Rng, w*h, 1, 0.1)
				kernels(c, d, w, true)
				c.Count("kernel_arrays", 1)
				c.Seen("large", avx)
			})
			for w := 1; w <= k.N(40, 90); w++ {
				w := w
				run(fmt.Sprintf("shapes/w%d", w), func(c *kit.C) {
					for h := 1; h <= 12; h++ {
						for _, atEnd := range []bool{true, false} {
							d := kit.Noise(c.Rng, w*h, 3, 1)
							if h%3 == 0 {
								for i := range d {
									d[i] = float32(c.Rng.Intn(4))
								}
							}
							filter(c, d, w, atEnd)
							kernels(c, d, w, atEnd)
							c.Count("shapes", 1)
						}
						c.Seen("shape", w, h, avx)
					}
				})
			}
		}
	})
}
