// C20: monitor for alignment: transformations returned are compared with the
// generated truth, trees with brute force, the alignment step with rendered
// frames; hostile star lists watch for crashes and NaN results.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

type aff struct{ a, b, c, d, e, f float64 }

func (t aff) apply(x, y float64) (float64, float64) {
	return t.a*x + t.b*y + t.c, t.d*x + t.e*y + t.f
}
func of(t star.Transform2D) aff {
	return aff{float64(t.A), float64(t.B), float64(t.C), float64(t.D), float64(t.E), float64(t.F)}
}
func (t aff) inv() aff {
	det := t.a*t.e - t.b*t.d
	return aff{t.e / det, -t.b / det, (t.b*t.f - t.c*t.e) / det, -t.d / det, t.a / det, (t.c*t.d - t.a*t.f) / det}
}
func finite(t star.Transform2D) bool {
	for _, v := range []float32{t.A, t.B, t.C, t.D, t.E, t.F} {
		if !kit.Finite(v) {
			return false
		}
	}
	return true
}

// similarity maps frame coordinates to reference coordinates.
func similarity(rot, scale, cx, cy, tx, ty float64) aff {
	s, c := math.Sincos(rot)
	s, c = s*scale, c*scale
	return aff{c, -s, tx - c*cx + s*cy, s, c, ty - s*cx - c*cy}
}

// ---- affine algebra

func algebra(k *kit.K) {
	k.Case("identity", func(c *kit.C) {
		t := star.IdentityTransform2D()
		inv, err := t.Invert()
		if err != nil {
			c.Fatal("identity cannot be inverted: %v", err)
		}
		for i := 0; i < 1000; i++ {
			p := star.Point2D{X: float32(c.Rng.NormFloat64() * 4000), Y: float32(c.Rng.NormFloat64() * 4000)}
			if q := t.Apply(p); q != p {
				c.Fatal("identity maps %v to %v", p, q)
			}
			if q := inv.Apply(p); q != p {
				c.Fatal("inverse of the identity maps %v to %v", p, q)
			}
			c.Count("identity_points", 1)
		}
		c.Seen("identity")
	})
	for i := 0; i < k.N(400, 20000); i++ {
		k.Case(fmt.Sprintf("algebra/%d", i), func(c *kit.C) {
			r := c.Rng
			L := []float64{10, 1000, 6000}[r.Intn(3)]
			pt := func() star.Point2D {
				if r.Intn(3) == 0 { // on a grid, so that axis parallel sides are common
					return star.Point2D{X: float32(math.Floor(r.Float64()*4)) * float32(L) / 4, Y: float32(math.Floor(r.Float64()*4)) * float32(L) / 4}
				}
				return star.Point2D{X: float32(r.Float64() * L), Y: float32(r.Float64() * L)}
			}
			t := aff{r.NormFloat64(), r.NormFloat64(), r.NormFloat64() * L, r.NormFloat64(), r.NormFloat64(), r.NormFloat64() * L}
			if r.Intn(4) == 0 {
				sc := math.Exp(-6 * r.Float64())
				t.a, t.b, t.d, t.e = t.a*sc, t.b*sc, t.d*sc, t.e*sc
			}
			var p, q [3]star.Point2D
			for j := range p {
				p[j] = pt()
			}
			if r.Intn(4) == 0 {
				p[1].Y = p[0].Y
			}
			if r.Intn(6) == 0 {
				p[2].Y = p[0].Y
			}
			if r.Intn(6) == 0 {
				p[1].X = p[0].X
			}
			if r.Intn(5) == 0 { // thin
				u, v := float32(r.Float64()), float32(0.006+0.03*r.Float64())
				dx, dy := p[1].X-p[0].X, p[1].Y-p[0].Y
				p[2] = star.Point2D{X: p[0].X + u*dx - v*dy, Y: p[0].Y + u*dy + v*dx}
			}
			for j := range p {
				x, y := t.apply(float64(p[j].X), float64(p[j].Y))
				q[j] = star.Point2D{X: float32(x), Y: float32(y)}
			}
			det := float64(p[1].X-p[0].X)*float64(p[2].Y-p[0].Y) - float64(p[2].X-p[0].X)*float64(p[1].Y-p[0].Y)
			side := 0.0
			for j := range p {
				o := p[(j+1)%3]
				side = math.Max(side, math.Hypot(float64(p[j].X-o.X), float64(p[j].Y-o.Y)))
			}
			got, err := star.NewTransform2D(p[0], p[1], p[2], q[0], q[1], q[2])
			if err == nil && !finite(got) {
				c.Fatal("transformation %v from %v to %v is not finite but reported as success", got, p, q)
			}
			height := math.Abs(det) / (side + 1e-9)
			if height > side/200 && height > L/500 { // well conditioned
				if err != nil {
					c.Fatal("no transformation found from triangle %v to %v: %v", p, q, err)
				}
				c.Seen("tri", L, p[0].Y == p[1].Y, p[0].Y == p[2].Y, p[0].X == p[1].X)
				c.Count("triangle transformations", 1)
				m := 0.0
				for j := range q {
					m = math.Max(m, math.Max(math.Abs(float64(q[j].X)), math.Abs(float64(q[j].Y))))
				}
				for j := range p {
					o := got.Apply(p[j])
					e := math.Hypot(float64(o.X-q[j].X), float64(o.Y-q[j].Y))
					if e > (m+L)*2e-6*(side/height)*(L/height) {
						c.Fatal("transformation %v maps %v to %v, want %v (triangle %v to %v)", got, p[j], o, q[j], p, q)
					}
				}
			} else if det == 0 && err == nil && side == 0 {
				c.Fatal("three identical points gave transformation %v", got)
			}
			// apply and inversion
			tr := star.Transform2D{A: float32(t.a), B: float32(t.b), C: float32(t.c), D: float32(t.d), E: float32(t.e), F: float32(t.f)}
			T := of(tr)
			pts := []star.Point2D{pt(), pt(), {X: 0, Y: 0}}
			res := tr.ApplySlice(pts)
			for j, a := range pts {
				x, y := T.apply(float64(a.X), float64(a.Y))
				mg := (math.Abs(T.a)+math.Abs(T.b)+math.Abs(T.d)+math.Abs(T.e))*L + math.Abs(T.c) + math.Abs(T.f)
				one := tr.Apply(a)
				if len(res) != len(pts) || math.Abs(float64(one.X)-x) > 4e-7*mg || math.Abs(float64(one.Y)-y) > 4e-7*mg || math.Abs(float64(res[j].X)-x) > 4e-7*mg || math.Abs(float64(res[j].Y)-y) > 4e-7*mg {
					c.Fatal("%v applied to %v gives %v, want %v,%v", tr, a, one, x, y)
				}
			}
			iv, err := tr.Invert()
			d := T.a*T.e - T.b*T.d
			if cond := (T.a*T.a + T.b*T.b + T.d*T.d + T.e*T.e) / math.Abs(d); math.Abs(d) > 1e-3 || math.Abs(d) > 1e-7 && cond < 1e4 {
				if err != nil {
					c.Fatal("%v (determinant %g) not inverted: %v", tr, d, err)
				}
				want, g := T.inv(), of(iv)
				tol := 1e-6 * cond * (1 + cond)
				n := math.Abs(want.a) + math.Abs(want.b) + math.Abs(want.d) + math.Abs(want.e)
				if math.Abs(g.a-want.a) > tol*n || math.Abs(g.b-want.b) > tol*n || math.Abs(g.d-want.d) > tol*n || math.Abs(g.e-want.e) > tol*n ||
					math.Abs(g.c-want.c) > tol*n*(math.Abs(T.c)+math.Abs(T.f)) || math.Abs(g.f-want.f) > tol*n*(math.Abs(T.c)+math.Abs(T.f)) {
					c.Fatal("inverse of %v is %v, want %v", tr, iv, want)
				}
				c.Count("inversions", 1)
			} else if d == 0 && err == nil {
				c.Fatal("singular %v inverted to %v", tr, iv)
			}
			sg := star.Transform2D{A: 1, B: 2, C: 3, D: 2, E: 4, F: float32(r.NormFloat64())}
			if r.Intn(2) == 0 {
				sg = star.Transform2D{C: 4}
			}
			if iv, err := sg.Invert(); err == nil {
				c.Fatal("singular %v inverted to %v", sg, iv)
			}
			sg = star.Transform2D{A: float32(math.NaN()), E: 1}
			if iv, err := sg.Invert(); err == nil {
				c.Fatal("NaN transformation inverted to %v", iv)
			}
		})
	}
}

// ---- nearest neighbour trees

func trees(k *kit.K) {
	for i := 0; i < k.N(300, 8000); i++ {
		k.Case(fmt.Sprintf("tree/%d", i), func(c *kit.C) {
			r := c.Rng
			n := 1 + i%24
			if i%3 == 2 {
				n = 1 + r.Intn(600)
			}
			kind := r.Intn(6)
			unit := []float64{1000, 1, 0.05, 30}[r.Intn(4)]
			co := func() float32 {
				switch kind {
				case 0:
					return float32(r.Intn(3))
				case 1:
					return float32(r.Intn(20))
				case 2:
					return 7
				}
				return float32(r.Float64() * unit)
			}
			var t2 star.KDTree2
			var t3 star.KDTree3P
			pay := map[int32]star.Point3D{}
			for j := 0; j < n; j++ {
				p := star.Point3D{X: co(), Y: co(), Z: co()}
				if kind == 3 {
					p.Y = p.X
				}
				if kind == 4 && j > 0 { // presorted
					p.X = t2[j-1].X + 1
				}
				t2 = append(t2, star.Point2D{X: p.X, Y: p.Y})
				t3 = append(t3, star.Point3DPayload{Point3D: p, Payload: interface{}(int32(j))})
				pay[int32(j)] = p
			}
			o2 := append([]star.Point2D(nil), t2...)
			t2.Make()
			t3.Make()
			for q := 0; q < 40; q++ {
				p := star.Point3D{X: co(), Y: co(), Z: co()}
				switch q % 4 {
				case 1:
					j := r.Intn(n)
					p = pay[int32(j)]
				case 2:
					p = star.Point3D{X: float32(r.Float64()*2000 - 500), Y: float32(r.Float64()*2000 - 500), Z: float32(r.Float64()*2000 - 500)}
				case 3:
					p.X += 0.5
					p.Y -= 0.25
				}
				p2 := star.Point2D{X: p.X, Y: p.Y}
				b2, b3 := float32(math.MaxFloat32), float32(math.MaxFloat32)
				member := false
				for _, s := range o2 {
					if d := star.Dist2DSquared(p2, s); d < b2 {
						b2 = d
					}
				}
				for _, s := range pay {
					if d := star.Dist3DSquared(p, s); d < b3 {
						b3 = d
					}
				}
				g, d := t2.NearestNeighbor(p2)
				for _, s := range o2 {
					member = member || s == g
				}
				if !member || !kit.Near(d, b2, 1e-6, 2e-6) || !kit.Near(star.Dist2DSquared(p2, g), b2, 1e-6, 2e-6) {
					c.Fatal("nearest neighbour of %v among %d points: %v at squared distance %v, true squared distance %v (point of the set: %v)", p2, n, g, d, b2, member)
				}
				g3, d3 := t3.NearestNeighbor(p)
				if id, ok := g3.Payload.(int32); !ok || pay[id] != g3.Point3D {
					c.Fatal("3D neighbour %v carries a wrong payload", g3)
				}
				if !kit.Near(d3, b3, 1e-6, 2e-6) || !kit.Near(star.Dist3DSquared(p, g3.Point3D), b3, 1e-6, 2e-6) {
					c.Fatal("3D nearest neighbour of %v among %d points: %v at squared distance %v, true %v", p, n, g3, d3, b3)
				}
			}
			c.Count("neighbour queries", 80)
			c.Seen("tree", n, kind)
		})
	}
}

// ---- recovery of the true transformation

type scene struct {
	W, H, w, h int // reference and frame size
	t          aff // frame to reference
	ref, frame []star.Star
	common     int // frame stars inside the reference
	faint      int // spurious stars, fainter than all others
	jitter     float64
	desc       string
}

func mkStar(x, y, mass float64, w int) star.Star {
	return star.Star{Index: int32(x+0.5) + int32(w)*int32(y+0.5), Value: float32(mass), X: float32(x), Y: float32(y), Mass: float32(mass), HFR: 2}
}

func makeScene(r *rand.Rand, n int) *scene {
	for {
		if s := tryScene(r, n); len(s.frame) > 15 && (s.common*3 > len(s.frame)*2 || s.faint > 0 && s.common*100 > len(s.frame)*45) {
			return s
		}
	}
}

func tryScene(r *rand.Rand, n int) *scene {
	s := &scene{W: 600 + r.Intn(4000), H: 600 + r.Intn(3000)}
	bin := 1.0
	switch r.Intn(5) {
	case 0:
		bin = 2
	case 1:
		bin = 0.5
	}
	s.w, s.h = int(float64(s.W)/bin), int(float64(s.H)/bin)
	s.W, s.H = int(float64(s.w)*bin), int(float64(s.h)*bin)
	s.jitter = []float64{0, 0.05, 0.2, 0.5}[r.Intn(4)]
	rot := []float64{0, 0.01, -0.3, math.Pi / 2, math.Pi, r.Float64() * 7}[r.Intn(6)]
	sc := 1 + 2e-4*(r.Float64()-0.5)
	dx, dy := (r.Float64()-0.5)*0.1*float64(s.W), (r.Float64()-0.5)*0.1*float64(s.H)
	if r.Intn(4) == 0 {
		rot, dx, dy, sc = 0, float64(r.Intn(30)), float64(r.Intn(30)-15), 1
	}
	s.t = similarity(rot, bin*sc, float64(s.w)/2, float64(s.h)/2, float64(s.W)/2+dx, float64(s.H)/2+dy)
	inv := s.t.inv()
	type ps struct {
		st star.Star
		id int
	}
	var fr []ps
	// stars over an area larger than either view
	R := math.Hypot(float64(s.W), float64(s.H))
	dens := float64(n) / float64(s.W) / float64(s.H)
	cluster := 0 // a tight group of the brightest stars
	if r.Intn(3) == 0 && n >= 200 {
		cluster = 55
	}
	for id := 0; id < int(dens*4*R*R)+cluster; id++ {
		x, y := float64(s.W)/2+(2*r.Float64()-1)*R, float64(s.H)/2+(2*r.Float64()-1)*R
		mass := math.Exp(3 * r.Float64() * r.Float64() * 3)
		if id < cluster {
			x, y = float64(s.W)/2+(2*r.Float64()-1)*0.015*float64(s.H), float64(s.H)/2+(2*r.Float64()-1)*0.015*float64(s.H)
			mass = 1e5 * (1 + r.Float64())
		}
		inRef := x > 3 && y > 3 && x < float64(s.W)-3 && y < float64(s.H)-3
		if inRef {
			s.ref = append(s.ref, mkStar(x, y, mass, s.W))
		}
		fx, fy := inv.apply(x, y)
		fx, fy = fx+s.jitter/bin*r.NormFloat64(), fy+s.jitter/bin*r.NormFloat64()
		if fx > 3 && fy > 3 && fx < float64(s.w)-3 && fy < float64(s.h)-3 && r.Float64() > 0.08 {
			if inRef {
				s.common++
			}
			fr = append(fr, ps{mkStar(fx, fy, mass*(1+0.03*r.NormFloat64()), s.w), len(s.ref) - 1})
		}
	}
	for j := 0; j < n/15; j++ { // spurious
		fr = append(fr, ps{mkStar(3+r.Float64()*float64(s.w-6), 3+r.Float64()*float64(s.h-6), math.Exp(3*r.Float64()*r.Float64()*3), s.w), -1})
	}
	if r.Intn(3) == 0 && dens < 5e-5 && s.common > 25 {
		s.faint = int(float64(s.common) * (0.5 + 0.4*r.Float64()))
		for j := 0; j < s.faint; j++ {
			fr = append(fr, ps{mkStar(3+r.Float64()*float64(s.w-6), 3+r.Float64()*float64(s.h-6), 0.5*r.Float64(), s.w), -1})
		}
	}
	sort.SliceStable(s.ref, func(i, j int) bool { return s.ref[i].Mass > s.ref[j].Mass })
	sort.SliceStable(fr, func(i, j int) bool { return fr[i].st.Mass > fr[j].st.Mass })
	for _, p := range fr {
		s.frame = append(s.frame, p.st)
	}
	s.desc = fmt.Sprintf("reference %dx%d with %d stars (bright cluster of %d), frame %dx%d with %d stars (%d of them faint and spurious), rotation %.3g scale %.6g jitter %g, true %v", s.W, s.H, len(s.ref), cluster, s.w, s.h, len(s.frame), s.faint, rot, bin*sc, s.jitter, s.t)
	return s
}

// deviation over the frame's area
func deviation(t star.Transform2D, truth aff, w, h int) float64 {
	worst := 0.0
	for _, fx := range []float64{0, 0.5, 1} {
		for _, fy := range []float64{0, 0.5, 1} {
			x, y := fx*float64(w-1), fy*float64(h-1)
			ax, ay := of(t).apply(x, y)
			bx, by := truth.apply(x, y)
			worst = math.Max(worst, math.Hypot(ax-bx, ay-by))
		}
	}
	return worst
}

func recovery(k *kit.K) {
	total, loose := 0, 0
	for i := 0; i < k.N(60, 1500); i++ {
		k.Case(fmt.Sprintf("recover/%d", i), func(c *kit.C) {
			r := c.Rng
			n := []int{40, 80, 200}[r.Intn(3)]
			s := makeScene(r, n)
			K := int32([]int{20, 30, 50}[r.Intn(3)])
			refc := append([]star.Star(nil), s.ref...)
			frc := append([]star.Star(nil), s.frame...)
			al := star.NewAligner([]int32{int32(s.W), int32(s.H)}, s.ref, K)
			t, res := al.Align([]int32{int32(s.w), int32(s.h)}, s.frame, i)
			for j := range refc {
				if refc[j] != s.ref[j] {
					c.Fatal("aligner changed the reference stars")
				}
			}
			for j := range frc {
				if frc[j] != s.frame[j] {
					c.Fatal("aligner changed the frame's stars")
				}
			}
			dev := deviation(t, s.t, s.w, s.h)
			c.Sample("%s: residual %.3g deviation %.3g", s.desc, res, dev)
			if os.Getenv("VK_DEBUG") != "" {
				fmt.Printf("%d K=%d %s: residual %.4g deviation %.3g\n", i, K, s.desc, res, dev)
			}
			c.Count("alignments", 1)
			c.Seen("recover", n, K, s.jitter, int(dev*10))
			// the optimiser rarely stops early, so that stars far from the matched
			// ones are off by a little more: tolerated in one of twenty cases
			tol := 0.5 + 2.5*s.jitter
			total++
			if dev > tol || float64(res) > 2*s.jitter+0.1 {
				loose++
			}
			if !finite(t) || !(dev <= tol+0.003*float64(s.W+s.H)) {
				c.Fatal("%s: aligned by %v, off by %g pixels; residual %g", s.desc, t, dev, res)
			}
			if !(res >= 0) || float64(res) > 2*s.jitter+0.6 {
				c.Fatal("%s: residual %g is not at the level of the jitter (aligned by %v, off by %g)", s.desc, res, t, dev)
			}
			// nor is it less than what the stars are really off
			sum, cnt := 0.0, 0
			for _, f := range s.frame {
				tx, ty := s.t.apply(float64(f.X), float64(f.Y))
				for _, q := range s.ref {
					if math.Hypot(tx-float64(q.X), ty-float64(q.Y)) < 5*s.jitter {
						p := t.Apply(star.Point2D{X: f.X, Y: f.Y})
						sum += math.Pow(math.Hypot(float64(p.X-q.X), float64(p.Y-q.Y)), 2)
						cnt++
						break
					}
				}
			}
			if low := math.Sqrt(sum) / float64(cnt); s.jitter > 0 && dev <= tol && cnt > 12 && float64(res) < 0.4*low {
				c.Fatal("%s: residual %g, but %d stars are off by %g (root of the sum of squares over count)", s.desc, res, cnt, low)
			}
		})
	}
	k.Case("recover/accuracy", func(c *kit.C) {
		c.Count("alignments within tight tolerance", total-loose)
		if loose*20 > total {
			c.Fatal("%d of %d alignments are off by more than half a pixel plus the jitter", loose, total)
		}
	})
}

// ---- frames which do not match

func strangers(k *kit.K) {
	for i := 0; i < k.N(40, 800); i++ {
		k.Case(fmt.Sprintf("stranger/%d", i), func(c *kit.C) {
			r := c.Rng
			W, H := 800+r.Intn(3000), 800+r.Intn(3000)
			n, m := 25+r.Intn(100), 25+r.Intn(60)
			f := func(n int) (s []star.Star) {
				for j := 0; j < n; j++ {
					s = append(s, mkStar(r.Float64()*float64(W), r.Float64()*float64(H), float64(1000-j), W))
				}
				return
			}
			ref, fr := f(n), f(m)
			al := star.NewAligner([]int32{int32(W), int32(H)}, ref, 30)
			t, res := al.Align([]int32{int32(W), int32(H)}, fr, i)
			c.Seen("stranger", n, m)
			c.Count("unrelated frames", 1)
			if !(res > 1) {
				c.Fatal("unrelated star lists of %d and %d stars in %dx%d aligned by %v with residual %g", n, m, W, H, t, res)
			}
		})
	}
	// few stars: a triangle of stars always has an exact transformation
	k.Case("stranger/few stars", func(c *kit.C) {
		r := c.Rng
		acc, all := 0, 0
		for j := 0; j < 60; j++ {
			var l [2][]star.Star
			for a := range l {
				for b := 0; b < 9; b++ {
					l[a] = append(l[a], mkStar(r.Float64()*1000, r.Float64()*1000, float64(1000-b), 1000))
				}
			}
			al := star.NewAligner([]int32{1000, 1000}, l[0], 30)
			if _, res := al.Align([]int32{1000, 1000}, l[1], j); !(res > 1) {
				acc++
			}
			all++
		}
		c.Count("unrelated frames of 9 stars", all)
		if acc > 0 {
			c.FailKey("few-stars", "%d of %d unrelated frames of 9 stars are reported as aligned", acc, all)
		}
	})
}

// ---- hostile star lists

func hostile(k *kit.K) {
	for i := 0; i < k.N(400, 8000); i++ {
		k.Case(fmt.Sprintf("hostile/%d", i), func(c *kit.C) {
			r := c.Rng
			W, H := 1+r.Intn(400), 1+r.Intn(400)
			list := func(n, kind int) (s []star.Star) {
				for j := 0; j < n; j++ {
					x, y := r.Float64()*float64(W), r.Float64()*float64(H)
					switch kind {
					case 0:
						y = float64(H / 2) // collinear
					case 1:
						x = float64(W / 2)
					case 2:
						x, y = float64(W/2), float64(H/2)
					case 3:
						x, y = float64(r.Intn(4)*W/4), float64(r.Intn(4)*H/4)
					case 4:
						y = x * float64(H) / float64(W)
					}
					s = append(s, mkStar(x, y, float64(100-j), W))
				}
				return
			}
			kr, kf := r.Intn(7), r.Intn(7)
			nr, nf := r.Intn(12), r.Intn(12)
			if i < 49 {
				nr, nf = i/7, i%7
			}
			ref, fr := list(nr, kr), list(nf, kf)
			if r.Intn(4) == 0 {
				fr = append([]star.Star(nil), ref...)
				nf = nr
			}
			K := int32([]int{50, 1, 2, 3, 4, 5, 10}[r.Intn(7)])
			desc := fmt.Sprintf("%dx%d: %d reference stars (kind %d), %d stars (kind %d), k=%d", W, H, nr, kr, nf, kf, K)
			al := star.NewAligner([]int32{int32(W), int32(H)}, ref, K)
			t, res := al.Align([]int32{int32(W), int32(H)}, fr, i)
			c.Seen("hostile", nr, nf, kr, kf, K)
			if math.IsNaN(float64(res)) || res < 0 {
				c.Fatal("%s: residual %g (transformation %v)", desc, res, t)
			}
			if res > 1 {
				c.Count("hostile lists rejected", 1)
				return
			}
			c.Count("hostile lists aligned", 1)
			if !finite(t) {
				c.Fatal("%s: transformation %v reported with residual %g", desc, t, res)
			}
			// what is reported as success must map stars onto reference stars
			near := 0
			for _, s := range fr {
				x, y := of(t).apply(float64(s.X), float64(s.Y))
				for _, q := range ref {
					if math.Hypot(float64(q.X)-x, float64(q.Y)-y) < 9 {
						near++
						break
					}
				}
			}
			if near == 0 || near < len(fr)/3 {
				c.Fatal("%s: transformation %v reported with residual %g maps only %d stars near a reference star", desc, t, res, near)
			}
		})
	}
}

// ---- the alignment step

func step(k *kit.K, race bool) {
	n := k.N(10, 80)
	if race {
		n = k.N(4, 20)
	}
	for i := 0; i < n; i++ {
		k.Case(fmt.Sprintf("step/%d", i), func(c *kit.C) {
			r := c.Rng
			W, H := 500+r.Intn(150), 450+r.Intn(150)
			// stars are rendered in the reference system and in each frame
			const R = 700.0
			var all []kit.Star
			for len(all) < 700 {
				s := kit.Star{X: float64(W)/2 + (2*r.Float64()-1)*R, Y: float64(H)/2 + (2*r.Float64()-1)*R, Flux: math.Exp(6 + 3*r.Float64()), Sigma: 1.5}
				ok := true
				for _, o := range all {
					ok = ok && math.Hypot(o.X-s.X, o.Y-s.Y) > 18
				}
				if ok {
					all = append(all, s)
				}
			}
			sort.Slice(all, func(a, b int) bool { return all[a].Flux > all[b].Flux })
			view := func(id, W, H int, sc float64, t aff, loc float64) *fits.Image {
				inv := t.inv()
				d := kit.Noise(r, W*H, loc, 0.5)
				var st []star.Star
				for _, s := range all {
					x, y := inv.apply(s.X, s.Y)
					kit.Render(d, W, H, kit.Star{X: x, Y: y, Flux: s.Flux * sc * sc, Sigma: s.Sigma * sc})
					if x > 8 && y > 8 && x < float64(W)-8 && y < float64(H)-8 {
						st = append(st, mkStar(x, y, s.Flux, W))
					}
				}
				f := kit.Img(id, W, H, d)
				f.Stars, f.Exposure = st, float32(id)+0.5
				return f
			}
			nf := 2 + r.Intn(9)
			refID := r.Intn(nf)
			var fs []*fits.Image
			var ts []aff
			kinds := make([]int, nf) // 0 match, 1 stranger, 2 no stars
			ws, hs := make([]int, nf), make([]int, nf)
			for j := 0; j < nf; j++ {
				// frames of other dimensions than the reference are brought to its dimensions
				fw, fh := W, H
				sc := 1.0
				if j != refID && r.Intn(3) == 0 {
					if fh = H + r.Intn(101) - 40; r.Intn(2) == 0 { // binned half as much as the reference
						fw, fh, sc = 2*W, 2*fh, 2
					}
				}
				ws[j], hs[j] = fw, fh
				t := similarity(r.Float64()*0.6-0.3, 1/sc, float64(fw)/2, float64(fh)/2, float64(W)/2+40*(r.Float64()-0.5), float64(H)/2+40*(r.Float64()-0.5))
				if j == refID {
					t = aff{a: 1, e: 1}
				} else if r.Intn(5) == 0 {
					t = similarity(math.Pi, 1/sc, float64(fw)/2, float64(fh)/2, float64(W)/2+5, float64(H)/2-3)
				}
				f := view(j, fw, fh, sc, t, 100+10*float64(j))
				if j != refID {
					switch r.Intn(8) {
					case 0:
						kinds[j] = 1
						for a := range f.Stars {
							f.Stars[a].X, f.Stars[a].Y = float32(r.Float64()*float64(fw)), float32(r.Float64()*float64(fh))
						}
					case 1:
						kinds[j], f.Stars = 2, nil
					}
				}
				fs, ts = append(fs, f), append(ts, t)
			}
			ctx, _ := kit.Context()
			ctx.MaxThreads = 1 + r.Intn(8)
			ref := fs[refID]
			ctx.AlignNaxisn, ctx.AlignStars = ref.Naxisn, ref.Stars
			ctx.MatchHisto = ref.Stats
			refLoc := ref.Stats.Location()
			own := make([]float32, nf)
			orig := make([][]float32, nf)
			for j, f := range fs {
				own[j] = f.Stats.Location()
				orig[j] = kit.Copy32(f.Data)
			}
			mode := post.OutOfBoundsMode(r.Intn(3))
			op := post.NewOpAlign(int32(20+r.Intn(20)), 1, mode)
			outs, err := kit.RunAll(op, kit.Proms(fs), ctx)
			if err != nil {
				c.Fatal("alignment of matching frames fails: %v", err)
			}
			got := map[int]*fits.Image{}
			last := -1
			for _, o := range outs {
				if o == nil {
					continue
				}
				if o.ID <= last {
					c.Fatal("frames out of order: %d after %d", o.ID, last)
				}
				last = o.ID
				got[o.ID] = o
			}
			c.Seen("step", nf, mode, ctx.MaxThreads, kinds)
			for j := range fs {
				o := got[j]
				if kinds[j] != 0 {
					if o != nil {
						c.Fatal("frame %d (%s) is not skipped", j, []string{"", "stars do not match", "no stars"}[kinds[j]])
					}
					c.Count("frames skipped", 1)
					continue
				}
				if o == nil {
					c.Fatal("matching frame %d is missing from the result", j)
				}
				if len(o.Naxisn) != 2 || int(o.Naxisn[0]) != W || int(o.Naxisn[1]) != H || o.Pixels != int32(W*H) {
					c.Fatal("frame %d has size %v (%d pixels) after alignment to a reference of %dx%d", j, o.Naxisn, o.Pixels, W, H)
				}
				if ws[j] != W || hs[j] != H {
					c.Count("frames of other dimensions aligned", 1)
				}
				if len(o.Data) != W*H || o.Exposure != float32(j)+0.5 {
					c.Fatal("frame %d: %d pixels exposure %v after alignment", j, len(o.Data), o.Exposure)
				}
				if j == refID {
					for p := range orig[j] {
						if o.Data[p] != orig[j][p] {
							c.Fatal("alignment changes pixel %d of the reference frame", p)
						}
					}
					c.Count("reference frames passed", 1)
					continue
				}
				c.Count("frames aligned", 1)
				oob := []float32{float32(math.NaN()), refLoc, own[j]}[mode]
				inv := ts[j].inv()
				for y := 0; y < H; y++ {
					for x := 0; x < W; x++ {
						sx, sy := inv.apply(float64(x), float64(y))
						if sx < -1 || sy < -1 || sx > float64(ws[j]) || sy > float64(hs[j]) {
							if v := o.Data[y*W+x]; !kit.Same(v, oob) {
								c.Fatal("frame %d pixel %d,%d has no source (%.1f,%.1f) but value %v, want fill %v", j, x, y, sx, sy, v, oob)
							}
							c.Count("fill pixels checked", 1)
						}
					}
				}
				// centroids of bright stars must lie where the reference has them
				chk := 0
				for _, s := range ref.Stars {
					sx, sy := inv.apply(float64(s.X), float64(s.Y))
					if mg := 10 * math.Hypot(inv.a, inv.b); sx < mg || sy < mg || sx > float64(ws[j])-mg || sy > float64(hs[j])-mg || s.Mass < 3000 {
						continue
					}
					var m, mx, my float64
					bad := false
					for y := int(s.Y) - 6; y <= int(s.Y)+7; y++ {
						for x := int(s.X) - 6; x <= int(s.X)+7; x++ {
							v := float64(o.Data[y*W+x]) - (100 + 10*float64(j))
							if v != v {
								bad = true
							}
							m += v
							mx += v * float64(x)
							my += v * float64(y)
						}
					}
					chk++
					if d := math.Hypot(mx/m-float64(s.X), my/m-float64(s.Y)); bad || !(d < 0.5) {
						c.Fatal("frame %d: star expected at %.2f,%.2f is at %.2f,%.2f after alignment (true transformation %v)", j, s.X, s.Y, mx/m, my/m, ts[j])
					}
				}
				c.Count("aligned stars measured", chk)
			}
		})
	}
	for i := 0; i < k.N(10, 100) && !race; i++ {
		k.Case(fmt.Sprintf("threshold/%d", i), func(c *kit.C) {
			s := makeScene(c.Rng, 50)
			for s.jitter == 0 || s.w*s.h > 4000000 || s.W*s.H > 4000000 {
				s = makeScene(c.Rng, 50)
			}
			ra, fa := []int32{int32(s.W), int32(s.H)}, []int32{int32(s.w), int32(s.h)}
			_, res := star.NewAligner(ra, s.ref, 15).Align(fa, s.frame, i)
			f := kit.Img(i, s.w, s.h, make([]float32, s.w*s.h))
			f.Stars = s.frame
			for _, q := range []float32{0.5, 0.8, 1.3, 3} {
				ctx, _ := kit.Context()
				ctx.AlignNaxisn, ctx.AlignStars = ra, s.ref
				o, err := kit.Run1(post.NewOpAlign(15, res*q, post.OOBModeNaN), f, ctx)
				if err != nil || (o != nil) != (q > 1) {
					c.Fatal("%s: residual %g with threshold %g: frame passed %v error %v", s.desc, res, res*q, o != nil, err)
				}
			}
			c.Count("threshold decisions", 4)
		})
	}
	k.Case("step/errors", func(c *kit.C) {
		f := kit.Img(0, 40, 40, kit.Noise(c.Rng, 1600, 10, 1))
		f.Stars = []star.Star{mkStar(3, 3, 1, 40), mkStar(20, 9, 1, 40), mkStar(30, 35, 1, 40)}
		for j := 0; j < 8; j++ {
			ctx, _ := kit.Context()
			want := ""
			op := post.NewOpAlign(20, 1, post.OOBModeNaN)
			switch j {
			case 0:
				want = "error"
			case 1:
				ctx.AlignNaxisn, want = f.Naxisn, "error"
			case 2:
				ctx.AlignNaxisn, ctx.AlignStars, want = f.Naxisn, []star.Star{}, "error"
			case 3: // alignment switched off
				op, want = post.NewOpAlign(0, 1, post.OOBModeNaN), "same"
			case 4: // reference of one, two stars
				ctx.AlignNaxisn, ctx.AlignStars, want = f.Naxisn, []star.Star{mkStar(3, 3, 1, 40)}, "skip"
			case 5:
				ctx.AlignNaxisn, ctx.AlignStars, want = f.Naxisn, []star.Star{mkStar(3, 3, 1, 40), mkStar(33, 3, 1, 40)}, "skip"
			case 6: // no histogram reference
				op = post.NewOpAlign(20, 1, post.OOBModeRefLocation)
				ctx.AlignNaxisn, ctx.AlignStars, want = f.Naxisn, append([]star.Star(nil), f.Stars...), "error"
			case 7: // empty input
				ctx.AlignNaxisn, ctx.AlignStars = f.Naxisn, f.Stars
				if o, err := op.Apply(nil, ctx); o != nil || err != nil {
					c.Fatal("empty frame gives %v, %v", o, err)
				}
				continue
			}
			for rep := 0; rep < 2; rep++ { // every time, not just for the first frame
				o, err := kit.Run1(op, f, ctx)
				ok := want == "error" && err != nil || want == "same" && err == nil && o == f || want == "skip" && err == nil && o == nil
				if !ok {
					c.Fatal("case %d: expected %s, got %v, %v", j, want, o, err)
				}
			}
			c.Count("error cases", 1)
			c.Seen("error", j)
		}
	})
}

// the aligner is shared by all workers
func shared(k *kit.K) {
	k.Case("shared", func(c *kit.C) {
		s := makeScene(c.Rng, 60)
		al := star.NewAligner([]int32{int32(s.W), int32(s.H)}, s.ref, 12)
		t0, r0 := al.Align([]int32{int32(s.w), int32(s.h)}, s.frame, 0)
		var wg sync.WaitGroup
		var mu sync.Mutex
		diff := []string{}
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				t, r := al.Align([]int32{int32(s.w), int32(s.h)}, s.frame, g)
				if t != t0 || r != r0 {
					mu.Lock()
					diff = append(diff, fmt.Sprint(t, r))
					mu.Unlock()
				}
			}(g)
		}
		wg.Wait()
		c.Count("concurrent alignments", 8)
		if len(diff) > 0 {
			c.Fatal("concurrent alignments differ from %v %v: %s", t0, r0, strings.Join(diff, "; "))
		}
	})
}

var _ ops.Operator = (*post.OpAlign)(nil)

func main() {
	race := os.Getenv("VK_PHASE") == "race"
	kit.Main("C20", "one evaluation = one transformation, tree query set, alignment or run of the alignment step; distinct = star counts x kinds x accuracy classes observed", func(k *kit.K) {
		kit.ExactStats()
		if !race {
			algebra(k)
			trees(k)
			recovery(k)
			strangers(k)
			hostile(k)
		}
		shared(k)
		step(k, race)
	})
}
