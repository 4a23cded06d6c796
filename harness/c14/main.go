// C14: monitor for bad pixel removal: an independent median filter decides for
// every pixel whether it must be replaced, and by which value.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"

	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// colour of a sensor pixel
func colour(cfa string, x, y int) byte { return cfa[(y&1)*2+(x&1)] }

// neighbourhood of same-colour pixels, nil if the pixel is not considered
func hood(d []float32, w, h, x, y int, ch byte, cfa string) (v []float32) {
	add := func(xx, yy int) {
		if xx >= 0 && yy >= 0 && xx < w && yy < h {
			v = append(v, d[yy*w+xx])
		}
	}
	if ch == 0 { // mono, border pixels stay
		if x == 0 || y == 0 || x == w-1 || y == h-1 {
			return nil
		}
		for yy := y - 1; yy <= y+1; yy++ {
			for xx := x - 1; xx <= x+1; xx++ {
				add(xx, yy)
			}
		}
		return v
	}
	if colour(cfa, x, y) != ch {
		return nil
	}
	if ch == 'G' {
		for _, o := range [][2]int{{0, -2}, {-1, -1}, {1, -1}, {-2, 0}, {0, 0}, {2, 0}, {-1, 1}, {1, 1}, {0, 2}} {
			add(x+o[0], y+o[1])
		}
		return v
	}
	for yy := y - 2; yy <= y+2; yy += 2 {
		for xx := x - 2; xx <= x+2; xx += 2 {
			add(xx, yy)
		}
	}
	return v
}

var removed = regexp.MustCompile(`Removed (\d+) bad`)

func content(r *rand.Rand, w, h int) []float32 {
	n := w * h
	var d []float32
	switch r.Intn(6) {
	case 0:
		d = make([]float32, n)
		for i := range d {
			d[i] = 500
		}
	case 1: // few discrete values
		d = make([]float32, n)
		for i := range d {
			d[i] = float32(100 + r.Intn(4))
		}
	case 2: // gradient
		d = kit.Noise(r, n, 0, 5)
		for i := range d {
			d[i] += float32(1000 + 3*(i%w) - 2*(i/w))
		}
	case 3: // wide range of colours per pixel phase
		d = kit.Noise(r, n, 0, 20)
		for i := range d {
			d[i] += float32(200*(1+i%w%2) + 900*(i/w%2))
		}
	default:
		d = kit.Noise(r, n, 1000, 50)
	}
	bad := r.Intn(1 + n/25)
	for j := 0; j < bad; j++ { // single bad pixels, pairs, clusters, at the border
		x, y := r.Intn(w), r.Intn(h)
		switch r.Intn(8) {
		case 0:
			x = 0
		case 1:
			y = 0
		case 2:
			x = w - 1
		case 3:
			y = h - 1
		}
		v := float32([]float64{0, 5000, 60000, 1e6, -3000, 1300}[r.Intn(6)])
		d[y*w+x] = v
		for m := r.Intn(3); m > 0; m-- {
			x2, y2 := x+r.Intn(3)-1, y+r.Intn(3)-1
			if x2 >= 0 && y2 >= 0 && x2 < w && y2 < h {
				d[y2*w+x2] = v + float32(r.Intn(100))
			}
		}
	}
	return d
}

func one(c *kit.C, w, h int, d []float32, lo, hi float32, channel, cfa, spell string) {
	f := kit.Img(7, w, h, kit.Copy32(d))
	f.FileName, f.Exposure = "bad", 3
	f.Stats.Mean()
	f.Stats.StdDev()
	f.Stats.Location()
	m := kit.MetaOf(f)
	ctx, log := kit.Context()
	var deb *pre.OpDebayer
	ch := byte(0)
	if channel != "" {
		deb = pre.NewOpDebayer(spell, cfa)
		ch = channel[0]
		cfa = map[byte]string{'r': "RGGB", 'R': "RGGB"}[cfa[0]] + map[string]string{"GRBG": "GRBG", "grbg": "GRBG", "GBRG": "GBRG", "gbrg": "GBRG", "BGGR": "BGGR", "bggr": "BGGR"}[cfa]
	} else if c.Rng.Intn(2) == 0 {
		deb = pre.NewOpDebayer("", "RGGB") // debayering off
	}
	out, err := kit.Run1(pre.NewOpBadPixel(lo, hi, deb), f, ctx)
	what := fmt.Sprintf("%dx%d sigma %v/%v channel %q cfa %q", w, h, lo, hi, channel, cfa)
	if err != nil || out == nil {
		c.Fatal("%s: %v", what, err)
	}
	kit.CheckMeta(c, out, m, what)
	// reference
	med := make([]float32, w*h)
	delta := make([]float64, w*h)
	in := make([]bool, w*h)
	var sum, n float64
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			i := y*w + x
			v := hood(d, w, h, x, y, ch, cfa)
			if v != nil {
				in[i] = true
				med[i] = kit.Median(v)
				delta[i] = float64(d[i] - med[i])
			}
			if v != nil || ch == 0 { // mono spread includes the border's zero differences
				sum += delta[i]
				n++
			}
		}
	}
	mean := sum / math.Max(n, 1)
	vv, top := 0.0, 0.0
	for i := range d {
		if in[i] || ch == 0 {
			vv += (delta[i] - mean) * (delta[i] - mean)
		}
		top = math.Max(top, math.Abs(delta[i]))
	}
	sd := math.Sqrt(vv / math.Max(n, 1))
	tl, th := -float64(lo)*sd, float64(hi)*sd
	tol := 1e-3*sd + 1e-6*top
	if lo == 0 || hi == 0 {
		tl, th, tol = math.Inf(-1), math.Inf(1), 0
	}
	repl, amb := 0, 0
	for i := range d {
		if !in[i] {
			if !kit.Same(out.Data[i], d[i]) {
				c.Fatal("%s: pixel %d,%d outside the colour or at the border changed from %v to %v", what, i%w, i/w, d[i], out.Data[i])
			}
			continue
		}
		isMed := kit.Near(out.Data[i], med[i], 0, 1e-6)
		if delta[i] < tl-tol || delta[i] > th+tol {
			repl++
			if !isMed {
				c.Fatal("%s: pixel %d,%d=%v with difference %v beyond [%v,%v] becomes %v, want median %v", what, i%w, i/w, d[i], delta[i], tl, th, out.Data[i], med[i])
			}
		} else if delta[i] < tl+tol || delta[i] > th-tol {
			if delta[i] != 0 {
				amb++
			}
			if out.Data[i] != d[i] && !isMed {
				c.Fatal("%s: pixel %d,%d=%v becomes %v, neither kept nor its median %v", what, i%w, i/w, d[i], out.Data[i], med[i])
			}
		} else if !kit.Same(out.Data[i], d[i]) {
			c.Fatal("%s: pixel %d,%d=%v with difference %v within [%v,%v] changed to %v", what, i%w, i/w, d[i], delta[i], tl, th, out.Data[i])
		}
	}
	if g := removed.FindStringSubmatch(log.String()); g != nil {
		cnt, _ := strconv.Atoi(g[1])
		if cnt < repl || cnt > repl+amb {
			c.Fatal("%s: reports %d removed, replaced %d (+%d at the threshold)", what, cnt, repl, amb)
		}
		c.Count("counts compared", 1)
	}
	mi, me, ma, sd2 := kit.MMM(out.Data)
	mag := 1e-5*(math.Abs(float64(mi))+math.Abs(float64(ma))) + 1e-20
	if st := out.Stats; !kit.Near(st.Min(), mi, mag, 0) || !kit.Near(st.Max(), ma, mag, 0) || !kit.Near(st.Mean(), me, mag, 1e-4) || math.Abs(float64(st.StdDev())-sd2) > 1e-3*sd2+100*mag {
		c.Fatal("%s: statistics %v, pixels have %v %v %v %v", what, st, mi, me, ma, sd2)
	}
	c.Count("pixels compared", len(d))
	c.Count("pixels replaced", repl)
	c.Seen(w, h, channel, cfa, repl)
}

func main() {
	kit.Main("C14", "one evaluation = a set of images corrected; distinct = size x channel x filter array x number of replaced pixels", func(k *kit.K) {
		kit.ExactStats()
		sig := []float32{3, 5, 1, 0.5, 2, 10, 0.1}
		cfas := []string{"RGGB", "GRBG", "GBRG", "BGGR", "rggb", "grbg", "gbrg", "bggr"}
		for i := 0; i < k.N(250, 4000); i++ {
			k.Case(fmt.Sprintf("mono/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 1+r.Intn(60), 1+r.Intn(40)
				if i%20 == 7 {
					w, h = 200+r.Intn(300), 100+r.Intn(200)
				}
				if i == 17 || i == 18 { // as wide as a camera chip
					w, h = 4200+r.Intn(500), 251+r.Intn(30)
					if i == 18 {
						w, h = h, w
					}
				}
				lo, hi := sig[r.Intn(7)], sig[r.Intn(7)]
				if r.Intn(20) == 0 {
					lo = 0
				} else if r.Intn(20) == 0 {
					hi = 0
				}
				one(c, w, h, content(r, w, h), lo, hi, "", "", "")
				c.Sample("%dx%d %v %v", w, h, lo, hi)
			})
			k.Case(fmt.Sprintf("bayer/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 1+r.Intn(50), 1+r.Intn(40)
				if i == 17 {
					w, h = 4200+r.Intn(500), 251+r.Intn(30)
				}
				d := content(r, w, h)
				for _, ch := range []string{"R", "G", "B"} {
					sp := ch
					if r.Intn(2) == 0 {
						sp = string(ch[0] + 32)
					}
					one(c, w, h, d, sig[r.Intn(7)], sig[r.Intn(7)], ch, cfas[r.Intn(8)], sp)
				}
			})
		}
		// a single outlier at every position of a small image
		for _, cfa := range append([]string{""}, cfas[:4]...) {
			k.Case("position/"+cfa, func(c *kit.C) {
				for w := 1; w <= 7; w++ {
					for h := 1; h <= 7; h++ {
						for p := 0; p < w*h; p++ {
							d := make([]float32, w*h)
							for j := range d {
								d[j] = float32(100 + c.Rng.Intn(3))
							}
							d[p] = float32([]float64{0, 4000}[p&1])
							if cfa == "" {
								one(c, w, h, d, 3, 3, "", "", "")
								continue
							}
							for _, ch := range []string{"R", "G", "B"} {
								one(c, w, h, d, 2, 2, ch, cfa, ch)
							}
						}
					}
				}
			})
		}
		k.Case("unknown", func(c *kit.C) {
			for _, p := range [][2]string{{"X", "RGGB"}, {"R", "RRGB"}, {"RG", "RGGB"}, {"B", "bayer"}, {"G", ""}} {
				ctx, _ := kit.Context()
				if _, err := kit.Run1(pre.NewOpBadPixel(3, 3, pre.NewOpDebayer(p[0], p[1])), kit.Img(0, 4, 4, kit.Noise(c.Rng, 16, 1, 1)), ctx); err == nil {
					c.Fail("channel %q cfa %q accepted", p[0], p[1])
				}
				c.Count("unknown refused", 1)
			}
		})
	})
}
