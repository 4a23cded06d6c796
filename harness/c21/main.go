// C21: monitor for projection: each pixel of the projected image is compared with
// the bilinear interpolation at the inversely transformed position.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func transform(r *rand.Rand, w, h int) (t star.Transform2D, kind string) {
	W, H := float64(w), float64(h)
	switch r.Intn(9) {
	case 0:
		return star.IdentityTransform2D(), "identity"
	case 1:
		t = star.IdentityTransform2D()
		t.C, t.F = float32(r.Intn(2*w+1)-w), float32(r.Intn(2*h+1)-h)
		return t, "whole pixel shift"
	case 2: // quarter turns and flips
		q := [][4]float32{{0, -1, 1, 0}, {0, 1, -1, 0}, {-1, 0, 0, -1}, {-1, 0, 0, 1}, {0, 1, 1, 0}}[r.Intn(5)]
		t = star.Transform2D{A: q[0], B: q[1], C: float32(r.Intn(w + h)), D: q[2], E: q[3], F: float32(r.Intn(w + h))}
		return t, "quarter turn"
	case 3:
		t = star.IdentityTransform2D()
		t.C, t.F = float32(r.NormFloat64()*W/6), float32(r.NormFloat64()*H/6)
		return t, "shift"
	case 4:
		s := float32([]float64{0.5, 2, 0.25, 3, 1.5}[r.Intn(5)])
		return star.Transform2D{A: s, C: float32(r.Intn(5)), E: s, F: float32(r.Intn(5))}, "scaling"
	case 5:
		return star.Transform2D{A: 1, B: float32(r.NormFloat64()), C: float32(r.NormFloat64()), D: 0, E: 1, F: 0}, "shear"
	case 6:
		t = star.IdentityTransform2D()
		t.C = float32([]float64{1e5, -1e9, 1e12, 3e20, 4294967296}[r.Intn(5)])
		return t, "far away"
	}
	a, s := r.Float64()*2*math.Pi, math.Exp(0.4*r.NormFloat64())
	if r.Intn(2) == 0 {
		a, s = r.NormFloat64()*0.02, 1+0.001*r.NormFloat64()
	}
	sn, cs := math.Sincos(a)
	cx, cy := W/2, H/2
	return star.Transform2D{A: float32(s * cs), B: float32(-s * sn), C: float32(cx - s*cs*cx + s*sn*cy + r.NormFloat64()),
		D: float32(s * sn), E: float32(s * cs), F: float32(cy - s*sn*cx - s*cs*cy + r.NormFloat64())}, "rotation"
}

func main() {
	kit.Main("C21", "one evaluation = one projection; distinct = kind of transformation x sizes observed", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(800, 20000); i++ {
			k.Case(fmt.Sprintf("project/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 1+r.Intn(60), 1+r.Intn(40)
				if i < 100 {
					w, h = 1+i%10, 1+i/10
				} else if i%40 == 0 {
					w, h = 300+r.Intn(900), 200+r.Intn(600)
				}
				if i == 117 || i == 118 { // as wide as a camera chip
					w, h = 4200+r.Intn(500), 251+r.Intn(30)
					if i == 118 {
						w, h = h, w
					}
				}
				dw, dh := w, h
				if r.Intn(2) == 0 {
					dw, dh = 1+r.Intn(2*w), 1+r.Intn(2*h)
				}
				amp := math.Pow(10, 6*r.Float64()-2)
				d := make([]float32, w*h)
				smooth := r.Intn(2) == 0
				for j := range d {
					if smooth {
						d[j] = float32(amp * (1 + math.Sin(float64(j%w)/5)*math.Cos(float64(j/w)/7)))
					} else {
						d[j] = float32(amp * (r.Float64() - 0.3))
					}
				}
				if r.Intn(3) == 0 { // areas of zeros
					from := r.Intn(len(d))
					for j := from; j < len(d) && j < from+1+len(d)/3; j++ {
						d[j] = 0
					}
				}
				mi, _, ma, _ := kit.MMM(d)
				rng := float64(ma) - float64(mi)
				mag := math.Max(math.Abs(float64(mi)), math.Abs(float64(ma)))
				withNaN := r.Intn(5) == 0
				if withNaN {
					for j := 0; j < 3; j++ {
						d[r.Intn(w*h)] = float32(math.NaN())
					}
				}
				f := kit.Img(i, w, h, kit.Copy32(d))
				f.Exposure = float32(r.Intn(100)) / 4
				if !withNaN {
					f.Stats.Mean()
					f.Stats.Location()
				}
				t, kind := transform(r, w, h)
				fill := []float32{float32(math.NaN()), 0, float32(amp * 3), -7}[r.Intn(4)]
				what := fmt.Sprintf("%dx%d to %dx%d by %v (%s)", w, h, dw, dh, t, kind)
				dest := []int32{int32(dw), int32(dh)}
				o, err := f.Project(dest, t, fill)
				if err != nil || o == nil {
					c.Fatal("%s: %v", what, err)
				}
				for j := range d {
					if !kit.Same(f.Data[j], d[j]) {
						c.Fatal("%s: source pixel %d changed from %v to %v", what, j, d[j], f.Data[j])
					}
				}
				if len(o.Naxisn) != 2 || o.Naxisn[0] != int32(dw) || o.Naxisn[1] != int32(dh) || len(o.Data) != dw*dh || int(o.Pixels) != dw*dh {
					c.Fatal("%s: result has axes %v, %d pixels", what, o.Naxisn, len(o.Data))
				}
				if dest[0] != int32(dw) || dest[1] != int32(dh) || f.Naxisn[0] != int32(w) {
					c.Fatal("%s: axes given changed", what)
				}
				if o.ID != f.ID || o.Exposure != f.Exposure {
					c.Fatal("%s: ID %d exposure %v, want %d %v", what, o.ID, o.Exposure, f.ID, f.Exposure)
				}
				if !withNaN && fill == fill {
					kit.CheckStats(c, o, what)
				}
				exact := kind == "identity" || kind == "whole pixel shift" || kind == "quarter turn"
				A, B, C, D, E, F := float64(t.A), float64(t.B), float64(t.C), float64(t.D), float64(t.E), float64(t.F)
				det := A*E - B*D
				ia, ib, ic := E/det, -B/det, (B*F-C*E)/det
				id, ie, iff := -D/det, A/det, (C*D-A*F)/det
				in, out := 0, 0
				cond := (A*A + B*B + D*D + E*E) / math.Abs(det)
				for y := 0; y < dh; y++ {
					for x := 0; x < dw; x++ {
						X, Y := float64(x), float64(y)
						px, py := ia*X+ib*Y+ic, id*X+ie*Y+iff
						// error of the position computed in float32
						e := 4e-7 * cond * ((math.Abs(ia)+math.Abs(ib)+math.Abs(id)+math.Abs(ie))*(X+Y+math.Abs(C)+math.Abs(F)) + 1e-3)
						if exact {
							e = 0
						}
						v := o.Data[y*dw+x]
						if px < -e || py < -e || px > float64(w-1)+e || py > float64(h-1)+e {
							out++
							if !kit.Same(v, fill) {
								c.Fatal("%s: pixel %d,%d comes from %.3f,%.3f outside the source but is %v, want %v", what, x, y, px, py, v, fill)
							}
							continue
						}
						edge := px <= e && e > 0 || py <= e && e > 0 || px >= float64(w-1)-e || py >= float64(h-1)-e
						if edge && kit.Same(v, fill) {
							continue
						}
						in++
						cx, cy := math.Min(math.Max(px, 0), float64(w-1)), math.Min(math.Max(py, 0), float64(h-1))
						xl, yl := int(cx), int(cy)
						xh, yh := xl+1, yl+1
						if xh > w-1 {
							xh = w - 1
						}
						if yh > h-1 {
							yh = h - 1
						}
						xr, yr := cx-float64(xl), cy-float64(yl)
						if withNaN { // a NaN neighbour makes the pixel NaN unless it has no weight
							near, all := false, true
							for yy := int(cy - e); yy <= int(cy+e)+1; yy++ {
								for xx := int(cx - e); xx <= int(cx+e)+1; xx++ {
									if xx < 0 || yy < 0 || xx >= w || yy >= h {
										continue
									}
									n := d[yy*w+xx] != d[yy*w+xx]
									near, all = near || n, all && n
								}
							}
							if near {
								m := math.Min(math.Min(xr, 1-xr), math.Min(yr, 1-yr)) // all four neighbours have weight
								if m > e+0.01 && v == v && xh > xl && yh > yl {
									for _, q := range []int{yl*w + xl, yl*w + xh, yh*w + xl, yh*w + xh} {
										if d[q] != d[q] {
											c.Fatal("%s: pixel %d,%d between NaN pixels at %.3f,%.3f is %v", what, x, y, px, py, v)
										}
									}
								}
								if all && v == v {
									c.Fatal("%s: pixel %d,%d from NaN pixels at %.3f,%.3f is %v", what, x, y, px, py, v)
								}
								continue
							}
						}
						want := (float64(d[yl*w+xl])*(1-xr)+float64(d[yl*w+xh])*xr)*(1-yr) + (float64(d[yh*w+xl])*(1-xr)+float64(d[yh*w+xh])*xr)*yr
						if exact && v != float32(want) || !(math.Abs(float64(v)-want) <= 4*e*rng+1e-6*mag) {
							c.Fatal("%s: pixel %d,%d is %v, source at %.4f,%.4f is %v (position error up to %.2g)", what, x, y, v, px, py, want, e)
						}
					}
				}
				if kind == "identity" && in < (w-1)*(h-1)*dw*dh/(w*h)/4-w-h-dw-dh {
					c.Fatal("%s: only %d pixels inside", what, in)
				}
				c.Count("pixels interpolated", in)
				c.Count("pixels filled", out)
				c.Seen(kind, w, h, dw, dh)
				c.Sample("%s: %d pixels interpolated, %d filled", what, in, out)
			})
		}
		for i := 0; i < k.N(60, 600); i++ {
			k.Case(fmt.Sprintf("singular/%d", i), func(c *kit.C) {
				r := c.Rng
				q := float32(r.NormFloat64())
				n := float32(math.NaN())
				p := float32(1 + r.Intn(7))
				t := []star.Transform2D{{}, {C: 3, F: q}, {A: 1, B: 2, C: q, D: 2, E: 4, F: 1}, {A: p, D: p}, {A: 1, B: 0, C: q}, {B: 1, E: p}, {A: p, B: p, D: p, E: p},
					{A: n, E: 1}, {A: 1, E: n}, {A: 1, B: n, D: 1, E: 1}}[i%10]
				f := kit.Img(0, 9, 7, kit.Noise(r, 63, 10, 1))
				if o, err := f.Project(f.Naxisn, t, 0); err == nil {
					c.Fatal("singular transformation %v gives no error, image %v", t, o.Data[:9])
				}
				c.Count("singular transformations refused", 1)
				c.Seen("singular", i%10)
			})
		}
	})
}
