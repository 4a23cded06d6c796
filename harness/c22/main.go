// C22: monitor for background extraction: the background is measured as input
// minus output and compared with the true one the image was rendered with.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func load(c *kit.C, name string) *fits.Image {
	f, err := fits.NewImageFromFile(name, 0, kit.Discard)
	if err != nil {
		c.Fatal("saved background %s: %v", name, err)
	}
	return f
}

func starList(r *rand.Rand, d []float32, w, h, n int, sigma, bright float64) (ss []star.Star) {
	for _, s := range kit.StarField(r, w, h, n, 3, 8*sigma) {
		flux := bright * math.Exp(3*r.Float64())
		kit.Render(d, w, h, kit.Star{X: s.X, Y: s.Y, Flux: flux, Sigma: sigma})
		x, y := int(s.X+0.5), int(s.Y+0.5)
		ss = append(ss, star.Star{Index: int32(y*w + x), X: float32(s.X), Y: float32(s.Y), Mass: float32(flux), HFR: float32(1.1774 * sigma), Value: d[y*w+x]})
	}
	return
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func median(a []float64) float64 {
	b := append([]float64(nil), a...)
	sort.Float64s(b)
	n := len(b)
	return (b[(n-1)/2] + b[n/2]) / 2
}

func main() {
	kit.Main("C22", "one evaluation = one background extracted; distinct = size x grid x content observed", func(k *kit.K) {
		kit.ExactStats()
		worst := map[string]float64{}
		for i := 0; i < k.N(150, 2500); i++ {
			k.Case(fmt.Sprintf("planar/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 120+r.Intn(300), 120+r.Intn(250)
				if i%9 == 4 {
					h = w
				}
				grid := 12 + r.Intn(50)
				if i == 17 || i == 18 { // as wide as a camera chip
					w, h, grid = 4200+r.Intn(500), 251+r.Intn(30), 60
					if i == 18 {
						w, h = h, w
					}
				}
				noise := []float64{0, 1, 20}[r.Intn(3)]
				gx, gy := r.NormFloat64()*2, r.NormFloat64()*2
				if i%10 == 0 {
					gx, gy = 0, 0
				}
				base := 3000 + 1000*r.Float64()
				truth := func(x, y int) float64 { return base + gx*float64(x) + gy*float64(y) }
				d := make([]float32, w*h)
				for j := range d {
					d[j] = float32(truth(j%w, j/w) + noise*r.NormFloat64())
				}
				var stars []star.Star
				if r.Intn(3) > 0 {
					if grid < 26 { // cells larger than a masked star
						grid += 14
					}
					stars = starList(r, d, w, h, 1+r.Intn(60), 1+1.5*r.Float64(), 2000)
				}
				clip := []int32{0, 0, 2}[r.Intn(3)]
				if gx*gx+gy*gy > 0.01 { // clipping the brightest cells would cut off the gradient
					clip = 0
				}
				f := kit.Img(i, w, h, kit.Copy32(d))
				f.FileName, f.Exposure, f.Stars, f.HFR = "bg", 4, stars, 2
				f.Stats.Mean()
				f.Stats.Location()
				m := kit.MetaOf(f)
				dir := c.Dir()
				defer k.CleanDir(dir)
				pat := ""
				if r.Intn(2) == 0 {
					pat = filepath.Base(dir) + "/bg%d.fits"
				}
				ctx, _ := kit.Context()
				sigma := float32([]float64{1.5, 3, 100, 1}[r.Intn(4)])
				what := fmt.Sprintf("%dx%d grid %d slope %.2f,%.2f noise %v, %d stars, sigma %v clip %d save %q", w, h, grid, gx, gy, noise, len(stars), sigma, clip, pat)
				out, err := kit.Run1(pre.NewOpBackExtract(int32(grid), 4, sigma, clip, pat), f, ctx)
				if err != nil || out == nil {
					c.Fatal("%s: %v", what, err)
				}
				kit.CheckMeta(c, out, m, what)
				if len(out.Stars) != len(stars) {
					c.Fatal("%s: star list changed", what)
				}
				kit.CheckStats(c, out, what)
				// background measured from the pixels; between the outermost cell centers it
				// interpolates, beyond it extrapolates from cells smoothed one-sidedly
				slope := math.Hypot(gx, gy) * float64(grid)
				trim := 0.22 // trimming bright outliers also trims the bright side of a sloped cell
				if len(stars) > 0 {
					trim += 0.3 // and masked stars move the center of what is left of it
				}
				tolIn := 0.02 + 0.9*noise + trim*slope
				tolOut := 0.02 + 1.2*noise + (0.6+trim)*slope
				for j := range d {
					x, y := j%w, j/w
					bg := float64(d[j]) - float64(out.Data[j])
					e := math.Abs(bg - truth(x, y))
					g2 := 2 * grid
					inner := x > g2 && y > g2 && x < w-g2 && y < h-g2
					tol := tolOut
					if inner {
						tol = tolIn
					}
					if slope > 1 && noise == 0 {
						key := fmt.Sprint(sigma, inner, len(stars) > 0)
						worst[key] = math.Max(worst[key], e/slope)
					}
					if !(e <= tol+1e-5*math.Abs(float64(d[j]))) {
						c.Fatal("%s: background at %d,%d is %v, true %v, tolerance %v", what, x, y, bg, truth(x, y), tol)
					}
				}
				c.Count("pixels compared", len(d))
				if os.Getenv("VK_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "worst error/slope", worst)
				}
				if pat != "" {
					b := load(c, filepath.Join(filepath.Base(dir), fmt.Sprintf("bg%d.fits", i)))
					if !fits.EqualInt32Slice(b.Naxisn, out.Naxisn) {
						c.Fatal("%s: saved background has size %v", what, b.Naxisn)
					}
					f2 := kit.Img(i, w, h, kit.Copy32(d))
					f2.Stars = stars
					o2, err := kit.Run1(pre.NewOpBackExtract(int32(grid), 4, sigma, clip, ""), f2, ctx)
					if err != nil {
						c.Fatal("%v", err)
					}
					for j := range d {
						tol := 1e-6 * (math.Abs(float64(d[j])) + math.Abs(float64(b.Data[j])))
						if math.Abs(float64(d[j])-float64(b.Data[j])-float64(out.Data[j])) > tol {
							c.Fatal("%s: pixel %d: input %v minus saved background %v gives %v", what, j, d[j], b.Data[j], out.Data[j])
						}
						if math.Abs(float64(o2.Data[j])-float64(out.Data[j])) > tol {
							c.Fatal("%s: pixel %d: %v when saving, %v without", what, j, out.Data[j], o2.Data[j])
						}
					}
					c.Count("saved backgrounds compared", 1)
				}
				c.Seen(w, h, grid, len(stars), noise, pat != "")
				c.Sample("%s", what)
			})
			k.Case(fmt.Sprintf("object/%d", i), func(c *kit.C) {
				// bright objects filling some cells are clipped away, the rest is flat
				r := c.Rng
				grid := 10 + r.Intn(20)
				nx, ny := 6+r.Intn(6), 6+r.Intn(6)
				w, h := nx*grid, ny*grid
				d := kit.Noise(r, w*h, 500, 2)
				n := 1 + r.Intn(3)
				cells := map[int]bool{}
				for len(cells) < n {
					cells[r.Intn(nx*ny)] = true
				}
				for cell := range cells {
					for y := 0; y < grid; y++ {
						for x := 0; x < grid; x++ {
							d[(cell/nx*grid+y)*w+cell%nx*grid+x] += 40000 // exactly one cell
						}
					}
				}
				f := kit.Img(i, w, h, kit.Copy32(d))
				ctx, _ := kit.Context()
				what := fmt.Sprintf("%dx%d grid %d, %d bright cells clipped", w, h, grid, n)
				out, err := kit.Run1(pre.NewOpBackExtract(int32(grid), 4, 1.5, int32(n), ""), f, ctx)
				if err != nil {
					c.Fatal("%s: %v", what, err)
				}
				for j := range d {
					if bg := float64(d[j]) - float64(out.Data[j]); math.Abs(bg-500) > 10 {
						c.Fatal("%s: background at %d,%d is %v, want about 500", what, j%w, j/w, bg)
					}
				}
				// without clipping they are background, with too many clipped the rest is still flat
				f = kit.Img(i, w, h, kit.Copy32(d))
				out, err = kit.Run1(pre.NewOpBackExtract(int32(grid), 4, 1.5, 0, ""), f, ctx)
				if err != nil {
					c.Fatal("%s: %v", what, err)
				}
				for cell := range cells {
					j := (cell/nx*grid+grid/2)*w + cell%nx*grid + grid/2
					if bg := float64(d[j]) - float64(out.Data[j]); bg < 1000 {
						c.Fatal("%s: without clipping the background in cell %d is %v", what, cell, bg)
					}
				}
				// of more objects than are clipped, the brightest go
				var order []int
				for cell := range cells {
					order = append(order, cell)
				}
				sort.Ints(order)
				far := order[0]
				for cell := range make([]bool, nx*ny) { // farthest from the others
					dist := func(a int) int {
						m := nx * ny
						for _, o := range order {
							dx, dy := a%nx-o%nx, a/nx-o/nx
							m = mini(m, -mini(-dx*dx, -dy*dy))
						}
						return m
					}
					if dist(cell) > dist(far) {
						far = cell
					}
				}
				d2 := kit.Copy32(d)
				for y := 0; y < grid; y++ {
					for x := 0; x < grid; x++ {
						d2[(far/nx*grid+y)*w+far%nx*grid+x] += 20000
					}
				}
				f = kit.Img(i, w, h, kit.Copy32(d2))
				out, err = kit.Run1(pre.NewOpBackExtract(int32(grid), 4, 1.5, int32(n), ""), f, ctx)
				if err != nil {
					c.Fatal("%s: %v", what, err)
				}
				center := func(cell int) float64 {
					j := (cell/nx*grid+grid/2)*w + cell%nx*grid + grid/2
					return float64(d2[j]) - float64(out.Data[j])
				}
				if bg := center(far); far != order[0] && bg < 1000 {
					c.Fatal("%s, a less bright one not: background of the latter is %v", what, bg)
				}
				for _, cell := range order {
					if bg := center(cell); bg > 25000 {
						c.Fatal("%s, a less bright one not: background in bright cell %d is %v", what, cell, bg)
					}
				}
				c.Seen("object", grid, nx, ny, n)
				c.Count("objects clipped", n)
			})
			k.Case(fmt.Sprintf("bigstars/%d", i), func(c *kit.C) {
				// stars larger than cells are masked in all cells they cover
				r := c.Rng
				w, h, grid := 150+r.Intn(100), 150+r.Intn(100), 5+r.Intn(12)
				d := kit.Noise(r, w*h, 500, 2)
				ss := starList(r, d, w, h, 1+r.Intn(3), 3+2*r.Float64(), 1e6)
				f := kit.Img(i, w, h, kit.Copy32(d))
				f.Stars = ss
				ctx, _ := kit.Context()
				what := fmt.Sprintf("%dx%d grid %d, %d large stars", w, h, grid, len(ss))
				out, err := kit.Run1(pre.NewOpBackExtract(int32(grid), 4, 1.5, 0, ""), f, ctx)
				if err != nil {
					c.Fatal("%s: %v", what, err)
				}
				for j := range d {
					if bg := float64(d[j]) - float64(out.Data[j]); math.Abs(bg-500) > 20 {
						c.Fatal("%s: background at %d,%d is %v, want about 500, star at %v,%v", what, j%w, j/w, bg, ss[0].X, ss[0].Y)
					}
				}
				c.Seen("bigstars", w, h, grid, len(ss))
			})
			k.Case(fmt.Sprintf("strip/%d", i), func(c *kit.C) {
				// a single row or column of cells, whose sides differ
				r := c.Rng
				grid := 36 + r.Intn(12)
				w, h := grid*(5+r.Intn(6))+r.Intn(grid), grid+grid/3+r.Intn(grid/2)
				if r.Intn(2) == 0 {
					w, h = h, w
				}
				d := kit.Noise(r, w*h, 500, 2)
				ss := starList(r, d, w, h, 1, 5+2*r.Float64(), 1e6)
				f := kit.Img(i, w, h, kit.Copy32(d))
				f.Stars = ss
				ctx, _ := kit.Context()
				what := fmt.Sprintf("%dx%d grid %d, a large star", w, h, grid)
				out, err := kit.Run1(pre.NewOpBackExtract(int32(grid), 4, 100, 0, ""), f, ctx)
				if err != nil {
					c.Fatal("%s: %v", what, err)
				}
				for j := range d {
					bg := float64(d[j]) - float64(out.Data[j])
					worst["strip"] = math.Max(worst["strip"], math.Abs(bg-500))
					if math.Abs(bg-500) > 12 {
						c.Fatal("%s: background at %d,%d is %v, want about 500, star at %v,%v", what, j%w, j/w, bg, ss[0].X, ss[0].Y)
					}
				}
				c.Seen("strip", w, h, grid)
			})
			k.Case(fmt.Sprintf("cell/%d", i), func(c *kit.C) {
				// a single cell: the trimmed median of what is not masked, everywhere
				r := c.Rng
				w, h := 1+r.Intn(40), 1+r.Intn(40)
				d := make([]float32, w*h)
				for j := range d {
					d[j] = float32(r.NormFloat64())
					switch i % 4 {
					case 3: // mostly the same value
						d[j] = float32(math.Round(float64(d[j]) * 0.6))
					case 0:
						d[j] = float32(100*r.NormFloat64() + 1000)
					case 1:
						d[j] = float32(math.Exp(2 * r.NormFloat64()))
					}
				}
				factor := float32(1 + 3*r.Float64())
				var ss []star.Star
				for n := r.Intn(4); n > 0; n-- {
					ss = append(ss, star.Star{X: r.Float32() * float32(w), Y: r.Float32() * float32(h), HFR: 3 * r.Float32(), Mass: 1})
				}
				var in []float64
				unsure := false
				for j, v := range d {
					masked := false
					for _, s := range ss {
						dist := math.Hypot(float64(j%w)-float64(s.X), float64(j/w)-float64(s.Y)) - float64(s.HFR*factor)
						masked = masked || dist < 0
						unsure = unsure || math.Abs(dist) < 1e-4
					}
					if !masked {
						in = append(in, float64(v))
					}
				}
				if unsure || len(in) == 0 {
					return
				}
				sigma := []float64{1.5, 0.7, 3, 1, 100}[r.Intn(5)]
				med := median(in)
				dev := make([]float64, len(in))
				for j, v := range in {
					dev[j] = math.Abs(v - med)
				}
				mad := median(dev)
				bound := med + sigma*1.4826*mad
				tol := 1e-5 * math.Abs(bound)
				if mad == 0 {
					tol = 0
				}
				var low, high []float64 // trimmed, for rounding of the bound
				for _, v := range in {
					if v <= bound-tol {
						low = append(low, v)
					}
					if v <= bound+tol {
						high = append(high, v)
					}
				}
				if len(low) != len(high) || len(low) == 0 {
					return
				}
				want := median(low)
				f := kit.Img(i, w, h, kit.Copy32(d))
				f.Stars = ss
				ctx, _ := kit.Context()
				what := fmt.Sprintf("%dx%d in one cell, sigma %v, %d stars, %d of %d pixels within %v", w, h, sigma, len(ss), len(low), len(d), bound)
				out, err := kit.Run1(pre.NewOpBackExtract(int32(-mini(-w, -h)+r.Intn(100)), factor, float32(sigma), 0, ""), f, ctx)
				if err != nil {
					c.Fatal("%s: %v", what, err)
				}
				for j := range d {
					if bg := float64(d[j]) - float64(out.Data[j]); math.Abs(bg-want) > 1e-5*(math.Abs(want)+math.Abs(float64(d[j]))) {
						c.Fatal("%s: background at %d,%d is %v, trimmed median %v", what, j%w, j/w, bg, want)
					}
				}
				c.Seen("cell", w, h, sigma, len(ss))
				c.Count("single cells compared", 1)
			})
			k.Case(fmt.Sprintf("hostile/%d", i), func(c *kit.C) {
				r := c.Rng
				for rep := 0; rep < 4; rep++ {
					w, h := 1+r.Intn(40), 1+r.Intn(40)
					grid := []int32{1, 2, 3, 5, 7, 16, 33, 40, 79, 80, 81, 1000, math.MaxInt32, 0, -1, -20}[r.Intn(16)]
					d := make([]float32, w*h)
					kind := r.Intn(5)
					for j := range d {
						switch kind {
						case 0:
							d[j] = 7
						case 1:
							d[j] = float32(r.Intn(2))
						case 2:
							d[j] = float32(1000 * r.NormFloat64())
						case 3:
							d[j] = float32(j % w)
						}
					}
					var ss []star.Star
					for n := r.Intn(4) * r.Intn(30); n > 0; n-- {
						x, y := r.Float64()*float64(w), r.Float64()*float64(h)
						ss = append(ss, star.Star{X: float32(x), Y: float32(y), HFR: float32([]float64{0.5, 1, 3, 50}[r.Intn(4)]), Mass: 10})
					}
					clip := []int32{0, 1, 2, 5, 100, 100000, -3}[r.Intn(7)]
					hfrf := float32([]float64{4, 0, 1, 100}[r.Intn(4)])
					sigma := float32([]float64{1.5, 0, 3, -1, 100}[r.Intn(5)])
					what := fmt.Sprintf("%dx%d kind %d grid %d clip %d hfrFactor %v sigma %v, %d stars", w, h, kind, grid, clip, hfrf, sigma, len(ss))
					os.WriteFile("current.txt", []byte(what), 0644)
					f := kit.Img(i, w, h, kit.Copy32(d))
					f.Stars = ss
					m := kit.MetaOf(f)
					ctx, _ := kit.Context()
					out, err := kit.Run1(pre.NewOpBackExtract(grid, hfrf, sigma, clip, ""), f, ctx)
					if err != nil || out == nil {
						c.Fatal("%s: %v", what, err)
					}
					kit.CheckMeta(c, out, m, what)
					lo, _, hi, _ := kit.MMM(d)
					span := 3*float64(hi-lo) + 1e-3
					for j := range d {
						bg := float64(d[j]) - float64(out.Data[j])
						// bilinear interpolation, and extrapolation by at most half a cell
						if !(bg >= math.Min(0, float64(lo))-span && bg <= math.Max(0, float64(hi))+span) {
							c.Fatal("%s: background at %d,%d is %v, image range [%v,%v]", what, j%w, j/w, bg, lo, hi)
						}
						if grid <= 0 && out.Data[j] != d[j] {
							c.Fatal("%s: changes pixels", what)
						}
					}
					c.Seen("hostile", kind, grid, clip, len(ss) > 0)
					c.Count("hostile images survived", 1)
				}
			})
		}
		if os.Getenv("VK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "worst inner error/slope", worst)
		}
	})
}
