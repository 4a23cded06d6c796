// C13: monitor for dark and flat calibration: every pixel of every frame is
// compared with (light-dark)*max(flat)/flat, for any number of frames worked on
// concurrently; calibration files are observed to be read once and not modified.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

type set struct {
	name       string // file name relative to the working directory
	data       []float32
	file       []byte
	axes       []int32
	fmax       float32
}

func makeFile(c *kit.C, dir, name string, w, h int, data []float32, fl bool) *set {
	f := kit.Img(0, w, h, kit.Copy32(data))
	p := filepath.Join(filepath.Base(dir), name)
	if err := f.WriteFile(p); err != nil {
		c.Fatal("writing %s: %v", p, err)
	}
	b, _ := os.ReadFile(p)
	_, _, mx, _ := kit.MMM(data)
	return &set{name: p, data: data, file: b, axes: []int32{int32(w), int32(h)}, fmax: mx}
}

func lights(r *rand.Rand, n, w, h int) (fs []*fits.Image, orig [][]float32) {
	for i := 0; i < n; i++ {
		loc := []float64{1000, 100, 0, -300, 40000}[r.Intn(5)] + 200*float64(i&1)
		d := kit.Noise(r, w*h, loc, 150)
		if r.Intn(8) == 0 {
			d = kit.Noise(r, w*h, 300*loc, 5000)
		}
		fs = append(fs, kit.Img(i, w, h, kit.Copy32(d)))
		orig = append(orig, d)
		fs[i].FileName, fs[i].Exposure = fmt.Sprintf("light%d", i), float32(i)+0.5
		if r.Intn(2) == 0 {
			fs[i].Stats.Mean()
			fs[i].Stats.StdDev()
		}
	}
	return
}

func checkFrame(c *kit.C, f *fits.Image, orig []float32, dark, flat *set, what string) {
	if f == nil || len(f.Data) != len(orig) {
		c.Fatal("%s: no image or other size", what)
	}
	for j := range orig {
		want, mag := float64(orig[j]), math.Abs(float64(orig[j]))
		if dark != nil {
			want -= float64(dark.data[j])
			mag += math.Abs(float64(dark.data[j]))
		}
		if flat != nil {
			if b := float64(flat.data[j]); b > 0 {
				q := float64(flat.fmax) / b
				want *= q
				mag *= q
			}
		}
		if math.Abs(float64(f.Data[j])-want) > 4e-7*mag+1e-30 {
			fl, dk := float32(0), float32(0)
			if flat != nil {
				fl = flat.data[j]
			}
			if dark != nil {
				dk = dark.data[j]
			}
			c.Fatal("%s: pixel %d of frame %d: light %v dark %v flat %v gives %v, want %v", what, j, f.ID, orig[j], dk, fl, f.Data[j], want)
		}
	}
	c.Count("pixels compared", len(orig))
	kit.CheckStats(c, f, what)
}

func main() {
	race := os.Getenv("VK_PHASE") == "race"
	kit.Main("C13", "one evaluation = one run of a calibration step over a set of frames; distinct = frame count x threads x dark/flat presence observed", func(k *kit.K) {
		kit.ExactStats()
		n := k.N(150, 2500)
		if race {
			n = k.N(40, 300)
		}
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("run/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 1+r.Intn(70), 1+r.Intn(40)
				if race {
					w, h = 1+r.Intn(12), 1+r.Intn(8)
				}
				if i == 17 && !race { // as wide as a camera chip
					w, h = 4200+r.Intn(500), 251+r.Intn(30)
				}
				dir := c.Dir()
				defer k.CleanDir(dir)
				var dark, flat *set
				rewrite := r.Intn(2) == 0 // other frames under the same name
				mk := func(pass string) {
					if rewrite {
						pass = ""
					}
					dark, flat = nil, nil
					kind := r.Intn(4)
					if i < 8 {
						kind = 3 - i%4
					}
					if kind&1 != 0 {
						dark = makeFile(c, dir, "dark"+pass+[]string{".fits", ".fits.gz"}[r.Intn(2)], w, h, kit.Noise(r, w*h, 100, 30), false)
					}
					if kind&2 != 0 {
						fd := kit.Noise(r, w*h, 20000, 3000)
						switch r.Intn(4) {
						case 0: // degenerate pixels
							fd[r.Intn(w*h)] = 0
							fd[r.Intn(w*h)] = -5
							fd[r.Intn(w*h)] = 0.0005
						case 1: // normalized flat
							for j := range fd {
								fd[j] /= 20000
							}
						}
						flat = makeFile(c, dir, "flat"+pass+".fits", w, h, fd, true)
					}
				}
				ctx, log := kit.Context()
				ctx.MaxThreads = 1 + r.Intn(8)
				nf := []int{1, 2, 3, 5, 9, 16, 33}[r.Intn(7)]
				if i == 17 {
					nf = 3
				} else if i == 18 {
					w, h, nf = 1+w%5, 1+h%5, 300
				}
				// two calibration steps with other frames may share one context
				for pass := 0; pass < 1+r.Intn(2); pass++ {
					mk(fmt.Sprint(pass))
					dn, fn := "", ""
					if dark != nil {
						dn = dark.name
					}
					if flat != nil {
						fn = flat.name
					}
					op := pre.NewOpCalibrate(dn, fn)
					what := fmt.Sprintf("pass %d, %d frames of %dx%d, %d threads, dark %q flat %q", pass, nf, w, h, ctx.MaxThreads, dn, fn)
					fs, orig := lights(r, nf, w, h)
					metas := []kit.Meta{}
					for _, f := range fs {
						metas = append(metas, kit.MetaOf(f))
					}
					before := log.String()
					outs, err := kit.RunAll(op, kit.Proms(fs), ctx)
					if err != nil || len(outs) != nf {
						c.Fatal("%s: %d results, %v", what, len(outs), err)
					}
					for j, f := range outs {
						checkFrame(c, f, orig[j], dark, flat, what)
						kit.CheckMeta(c, f, metas[j], what)
					}
					for _, s := range []*set{dark, flat} {
						if s == nil {
							continue
						}
						if n := strings.Count(log.String()[len(before):], s.name); n > 1 {
							c.Count("calibration file named in log more than once", 1)
						}
						b, _ := os.ReadFile(s.name)
						if !bytes.Equal(b, s.file) {
							c.Fatal("%s: calibration file %s was modified", what, s.name)
						}
						// later frames must not need the file again
						os.Remove(s.name)
					}
					fs, orig = lights(r, 2, w, h)
					outs, err = kit.RunAll(op, kit.Proms(fs), ctx)
					if err != nil || len(outs) != 2 {
						c.Fatal("%s: calibration frames are loaded again for later frames: %v", what, err)
					}
					for j, f := range outs {
						checkFrame(c, f, orig[j], dark, flat, what+", later frames")
					}
					// frames of another size are refused each time, others still work
					w2, h2 := w+1+r.Intn(3), h
					if r.Intn(2) == 0 {
						w2, h2 = w, h+1+r.Intn(3)
					}
					if w > 1 && r.Intn(2) == 0 { // smaller
						w2, h2 = w-1, h
					} else if h > 1 && r.Intn(3) == 0 {
						w2, h2 = w, h-1
					}
					for rep := 0; rep < 2 && (dark != nil || flat != nil); rep++ {
						bad, _ := lights(r, 1, w2, h2)
						if out, err := kit.Run1(op, bad[0], ctx); err == nil {
							c.Fatal("%s: frame of %dx%d accepted (%v)", what, w2, h2, out != nil)
						}
						good, orig := lights(r, 1, w, h)
						out, err := kit.Run1(op, good[0], ctx)
						if err != nil {
							c.Fatal("%s: after a refused frame: %v", what, err)
						}
						checkFrame(c, out, orig[0], dark, flat, what+", after a refused frame")
						c.Count("mismatching frames refused", 1)
					}
					c.Seen(nf, ctx.MaxThreads, dark != nil, flat != nil)
					c.Sample("%s", what)
				}
			})
		}
		for i := 0; i < k.N(12, 100); i++ {
			k.Case(fmt.Sprintf("faulty/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 2+r.Intn(20), 2+r.Intn(20)
				dir := c.Dir()
				defer k.CleanDir(dir)
				ctx, _ := kit.Context()
				ok := makeFile(c, dir, "ok.fits", w, h, kit.Noise(r, w*h, 100, 30), false)
				other := makeFile(c, dir, "other.fits", w+1, h, kit.Noise(r, w*h+h, 100, 30), false)
				cut := filepath.Join(filepath.Base(dir), "cut.fits")
				os.WriteFile(cut, ok.file[:len(ok.file)/2], 0644)
				missing := filepath.Join(filepath.Base(dir), "missing.fits")
				var op ops.Operator
				switch i % 6 {
				case 5: // dark and flat of the same number of pixels, turned
					if w == h {
						h++
					}
					turned := makeFile(c, dir, "turned.fits", h, w, kit.Noise(r, w*h, 100, 30), false)
					lying := makeFile(c, dir, "lying.fits", w, h, kit.Noise(r, w*h, 100, 30), false)
					op = pre.NewOpCalibrate(lying.name, turned.name)
				case 0:
					op = pre.NewOpCalibrate(missing, "")
				case 1:
					op = pre.NewOpCalibrate(ok.name, missing)
				case 2:
					op = pre.NewOpCalibrate(ok.name, other.name) // sizes of dark and flat differ
				case 3:
					op = pre.NewOpCalibrate(cut, ok.name)
				default:
					op = pre.NewOpCalibrate(other.name, "")
				}
				for rep := 0; rep < 3; rep++ { // reported for each frame, not just the first
					fs, _ := lights(r, 1, w, h)
					if _, err := kit.Run1(op, fs[0], ctx); err == nil {
						c.Fatal("kind %d: frame %d calibrated without error", i%6, rep)
					}
				}
				c.Seen("faulty", i%6)
				c.Count("faulty calibrations refused", 3)
			})
		}
	})
}
