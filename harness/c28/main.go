// C28: monitor for blur and unsharp mask. The kernel in use is measured by the
// response to a single bright pixel and checked to be a truncated gaussian; then
// every pixel of other images is compared with mirrored separable convolution.
package main

import (
	"fmt"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func run(c *kit.C, op ops.Operator, f *fits.Image) *fits.Image {
	m := kit.MetaOf(f)
	ctx, _ := kit.Context()
	out, err := kit.Run1(op, f, ctx)
	if err != nil || out == nil {
		c.Fatal("%T: error %v", op, err)
	}
	kit.CheckMeta(c, out, m, fmt.Sprintf("%T", op))
	kit.CheckStats(c, out, fmt.Sprintf("%T", op))
	return out
}

func phi(x float64) float64 { return 0.5 * (1 + math.Erf(x/math.Sqrt2)) }

// kernel measures the blur kernel for sigma.
func kernel(c *kit.C, sigma float32) []float64 {
	R := int(4*sigma) + 4
	n := 2*R + 1
	d := make([]float32, n*n)
	d[R*n+R] = 1
	f := run(c, stretch.NewOpGaussianBlur(sigma), kit.Img(0, n, n, d))
	k := make([]float64, n)
	rad := 0
	sum := 0.0
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			k[x] += float64(f.Data[y*n+x])
		}
		sum += k[x]
		if k[x] > 0 && x-R > rad {
			rad = x - R
		}
	}
	if math.Abs(sum-1) > 1e-5 {
		c.Fatal("kernel for sigma %v sums to %v", sigma, sum)
	}
	norm := 2*phi((float64(rad)+0.5)/float64(sigma)) - 1
	need := 0 // area left of a kernel one pixel wider is below one percent
	for phi(-(float64(need)+1.5)/float64(sigma)) > 0.0101 {
		need++
	}
	if rad < need {
		c.Fatal("kernel for sigma %v is cut off at radius %d", sigma, rad)
	}
	for x := -R; x <= R; x++ {
		want := 0.0
		if x >= -rad && x <= rad {
			want = (phi((float64(x)+0.5)/float64(sigma)) - phi((float64(x)-0.5)/float64(sigma))) / norm
		}
		if math.Abs(k[R+x]-want) > 2e-5 {
			c.Fatal("kernel for sigma %v at %d is %v, truncated gaussian %v", sigma, x, k[R+x], want)
		}
		for y := -R; y <= R; y++ {
			if math.Abs(float64(f.Data[(R+y)*n+R+x])-k[R+x]*k[R+y]) > 1e-5 {
				c.Fatal("kernel for sigma %v is not separable at %d,%d", sigma, x, y)
			}
		}
	}
	return k[R-rad : R+rad+1]
}

func mirror(n, x int) int {
	for x < 0 || x >= n {
		if x < 0 {
			x = -x - 1
		} else {
			x = 2*n - 1 - x
		}
	}
	return x
}

func conv(d []float32, w, h int, k []float64) []float64 {
	r := len(k) / 2
	t, o := make([]float64, len(d)), make([]float64, len(d))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for i := -r; i <= r; i++ {
				t[y*w+x] += float64(d[y*w+mirror(w, x+i)]) * k[i+r]
			}
		}
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for i := -r; i <= r; i++ {
				o[y*w+x] += t[mirror(h, y+i)*w+x] * k[i+r]
			}
		}
	}
	return o
}

func main() {
	kit.Main("C28", "one evaluation = one image blurred and unsharp masked; distinct = shape class x sigma observed", func(k *kit.K) {
		kit.ExactStats()
		kernels := map[float32][]float64{}
		sigmas := []float32{0.05, 0.1, 0.2, 0.21, 0.22, 0.3, 0.5, 0.64, 0.65, 0.8, 1, 1.5, 2, 2.5, 3, 4, 5.5, 8, 20}
		if k.Thorough() {
			for s := float32(0.05); s < 12; s += 0.07 {
				sigmas = append(sigmas, s)
			}
		}
		for _, s := range sigmas {
			k.Case(fmt.Sprintf("kernel/%g", s), func(c *kit.C) {
				kernels[s] = kernel(c, s)
				c.Seen("kernel", s)
				c.Sample("sigma %g: %d taps", s, len(kernels[s]))
			})
		}
		shapes := [][2]int{{1, 1}, {1, 7}, {9, 1}, {2, 2}, {2, 30}, {30, 2}, {3, 5}, {17, 4}, {33, 21}, {64, 9}, {5, 64}, {40, 40}}
		for i := 0; i < k.N(len(sigmas)*len(shapes), len(sigmas)*len(shapes)*6); i++ {
			k.Case(fmt.Sprintf("image/%d", i), func(c *kit.C) {
				r := c.Rng
				s, sh := sigmas[i%len(sigmas)], shapes[(i/len(sigmas))%len(shapes)]
				kk := kernels[s]
				if kk == nil {
					kk = kernel(c, s)
				}
				w, h := sh[0], sh[1]
				if i == 17 || i == 30 { // as wide as a camera chip
					w, h = 4200+r.Intn(500), 251+r.Intn(30)
					if i == 30 {
						w, h = h, w
					}
				}
				ch := 1
				if r.Intn(3) == 0 {
					ch = 3
				}
				mk := func(d []float32) *fits.Image {
					if ch == 3 {
						return kit.RGBImg(i, w, h, d)
					}
					return kit.Img(i, w, h, d)
				}
				amp, off := math.Pow(10, 5*r.Float64()-1), 0.0
				if r.Intn(2) == 0 {
					off = 1000 * r.Float64()
				}
				d := make([]float32, w*h*ch)
				for j := range d {
					d[j] = float32(off + amp*r.NormFloat64())
					if r.Intn(20) == 0 {
						d[j] = float32(off + 10*amp*r.Float64())
					}
				}
				if i%7 == 6 {
					for j := range d {
						d[j] = float32(off)
					}
				}
				mi, _, ma, _ := kit.MMM(d)
				mag := math.Max(math.Abs(float64(mi)), math.Abs(float64(ma)))
				tol := 5e-6*mag + 1e-30
				var ref []float64
				for p := 0; p < ch; p++ {
					ref = append(ref, conv(d[p*w*h:(p+1)*w*h], w, h, kk)...)
				}
				f := mk(kit.Copy32(d))
				f.Stats.Location()
				out := run(c, stretch.NewOpGaussianBlur(s), f)
				for j, v := range out.Data {
					if math.Abs(float64(v)-ref[j]) > tol {
						c.Fatal("blur sigma %v of %dx%dx%d: pixel %d is %v, convolution gives %v", s, w, h, ch, j, v, ref[j])
					}
				}
				c.Count("blurred pixels compared", len(d))
				// unsharp mask
				gain, thr := float32(0.1+3*r.Float64()), float32(2*r.Float64()-1)
				if r.Intn(4) == 0 { // softens
					gain = -r.Float32()
				}
				f = mk(kit.Copy32(d))
				at := float64(f.Stats.Location()) + float64(f.Stats.Scale())*float64(thr)
				out = run(c, stretch.NewOpUnsharpMask(s, gain, thr), f)
				ch1, cl := 0, 0
				for j, v := range out.Data {
					x := float64(d[j])
					if math.Abs(x-at) < 3e-6*mag {
						continue
					}
					if x < at {
						if v != d[j] {
							c.Fatal("unsharp mask changes pixel %d below the threshold %v from %v to %v", j, at, d[j], v)
						}
						continue
					}
					w := x + (x-ref[j])*float64(gain)
					if w < float64(mi) || w > float64(ma) {
						cl++
					}
					w = math.Max(float64(mi), math.Min(float64(ma), w))
					if math.Abs(float64(v)-w) > tol*(2+2*math.Abs(float64(gain))) {
						c.Fatal("unsharp mask sigma %v gain %v: pixel %d is %v, want %v", s, gain, j, v, w)
					}
					ch1++
				}
				c.Count("sharpened pixels", ch1)
				c.Count("clipped pixels", cl)
				c.Seen(s, sh, ch)
				// neutral parameters
				f = mk(kit.Copy32(d))
				for _, op := range []ops.Operator{stretch.NewOpGaussianBlur(0), stretch.NewOpUnsharpMask(0, 1, 1), stretch.NewOpUnsharpMask(s, 0, 1), stretch.NewOpGaussianBlur(-1), stretch.NewOpUnsharpMask(-1, 1, 0)} {
					out := run(c, op, f)
					for j := range d {
						if out.Data[j] != d[j] {
							c.Fatal("%T without effect changes pixel %d", op, j)
						}
					}
				}
			})
		}
	})
}
