// C32: monitor for saved frames: after saving frames with a pattern, serially or
// from many threads, the set of files on disk, the format of each and its content
// are compared with what the pattern and the frames' ids call for.
package main

import (
	"bytes"
	"fmt"
	"image/jpeg"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func main() {
	kit.Main("C32", "one evaluation = one set of frames saved with one pattern; distinct = pattern x suffix x threads", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(220, 6000); i++ {
			k.Case(fmt.Sprintf("pattern/%d", i), func(c *kit.C) { pattern(c, i) })
			if i%4 == 0 {
				k.Case(fmt.Sprintf("refused/%d", i), func(c *kit.C) { refused(c, i) })
			}
			if i%10 == 0 {
				k.Case(fmt.Sprintf("twosaves/%d", i), func(c *kit.C) { twoSaves(c, i) })
			}
		}
	})
}

var suffixes = []string{".fits", ".fit", ".fts", ".fits.gz", ".fit.gz", ".fts.gz", ".fits.gzip", ".fit.gzip", ".fts.gzip",
	".tif", ".tiff", ".jpg", ".jpeg", ".FITS", ".Fits.GZ", ".TIFF", ".Tif", ".JPG", ".JPEG", ".fts.GZIP"}

func format(suffix string) string {
	s := strings.ToLower(suffix)
	switch {
	case strings.HasSuffix(s, ".gz") || strings.HasSuffix(s, ".gzip"):
		return "gzip"
	case strings.HasPrefix(s, ".f"):
		return "fits"
	case strings.HasPrefix(s, ".t"):
		return "tiff"
	}
	return "jpeg"
}

func magic(b []byte) string {
	switch {
	case bytes.HasPrefix(b, []byte("SIMPLE  =")):
		return "fits"
	case bytes.HasPrefix(b, []byte{0x1f, 0x8b}):
		return "gzip"
	case bytes.HasPrefix(b, []byte("II*\x00")) || bytes.HasPrefix(b, []byte("MM\x00*")):
		return "tiff"
	case bytes.HasPrefix(b, []byte{0xff, 0xd8, 0xff}):
		return "jpeg"
	}
	return fmt.Sprintf("unknown %q", b[:kmin(len(b), 8)])
}

func kmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// a placeholder and its expansion, made without the code's formatting of patterns
type holder struct {
	verb string
	exp  func(id int) string
}

func pad(id, n int, zero bool) string {
	s := strconv.Itoa(id)
	neg := strings.HasPrefix(s, "-")
	if zero && neg {
		s = s[1:]
		n--
	}
	for len(s) < n {
		if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	if zero && neg {
		s = "-" + s
	}
	return s
}

func placeholder(c *kit.C) holder {
	n := 1 + c.Rng.Intn(9)
	if c.Rng.Intn(10) == 0 {
		n = 10 + c.Rng.Intn(10)
	}
	switch c.Rng.Intn(4) {
	case 0, 1:
		return holder{fmt.Sprintf("%%0%dd", n), func(id int) string { return pad(id, n, true) }}
	case 2:
		return holder{fmt.Sprintf("%%%dd", n), func(id int) string { return pad(id, n, false) }}
	}
	return holder{"%d", strconv.Itoa}
}

func frame(c *kit.C, id, ch int) *fits.Image {
	w, h := 8+c.Rng.Intn(24), 8+c.Rng.Intn(24)
	d := make([]float32, w*h*ch)
	lvl := 0.05 + 0.9*c.Rng.Float64()
	for j := range d {
		d[j] = float32(lvl + 0.001*c.Rng.Float64())
	}
	if ch == 3 {
		return kit.RGBImg(id, w, h, d)
	}
	return kit.Img(id, w, h, d)
}

func list(dir string) (o []string) {
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err == nil && !st.IsDir() {
			o = append(o, p)
		}
		return nil
	})
	sort.Strings(o)
	return
}

func ids(c *kit.C, n int) (o []int) {
	seen := map[int]bool{}
	for len(o) < n {
		id := c.Rng.Intn(30)
		switch c.Rng.Intn(6) {
		case 0:
			id = c.Rng.Intn(100000)
		case 1:
			id = []int{9, 10, 99, 100, 999, 1000, 9999, 10000, -1, -2}[c.Rng.Intn(10)] // calibration frames have negative ids
		}
		if !seen[id] {
			seen[id] = true
			o = append(o, id)
		}
	}
	return
}

func check(c *kit.C, name, suffix string, f *fits.Image, what string) {
	b, err := os.ReadFile(name)
	if err != nil {
		c.Fatal("%s: %v", what, err)
	}
	if m := magic(b); m != format(suffix) {
		c.Fatal("%s: %s has %s content", what, name, m)
	}
	if format(suffix) == "jpeg" {
		// content of JPEG is told by its dimensions and level; C05 judges the samples
		im, err := jpeg.Decode(bytes.NewReader(b))
		if err != nil {
			c.Fatal("%s: %s: %v", what, name, err)
		}
		rr, _, _, _ := im.At(0, 0).RGBA()
		if im.Bounds().Dx() != int(f.Naxisn[0]) || im.Bounds().Dy() != int(f.Naxisn[1]) || math.Abs(float64(rr)/65535-float64(f.Data[0])) > 0.03 {
			c.Fatal("%s: %s has %v of level %v, frame %d has %v of level %v", what, name, im.Bounds(), float64(rr)/65535, f.ID, f.Naxisn, f.Data[0])
		}
		return
	}
	if s := strings.ToLower(suffix); strings.HasSuffix(s, ".fts") || strings.Contains(s, "fts.") {
		// not all input filters list this suffix; load a copy
		n := name + ".fits"
		if format(suffix) == "gzip" {
			n += ".gz"
		}
		os.WriteFile(n, b, 0644)
		defer os.Remove(n)
		name = n
	}
	g, err := kit.Load(name)
	if err != nil {
		c.Fatal("%s: loading %s: %v", what, name, err)
	}
	if len(g.Data) != len(f.Data) || g.Naxisn[0] != f.Naxisn[0] {
		c.Fatal("%s: %s has dimensions %v, frame %d has %v", what, name, g.Naxisn, f.ID, f.Naxisn)
	}
	for j := range g.Data {
		got, want := float64(g.Data[j]), float64(f.Data[j])
		if format(suffix) == "tiff" {
			got /= 65535
		}
		if math.Abs(got-want) > 2e-5 {
			c.Fatal("%s: %s has %v at %d, frame %d has %v", what, name, got, j, f.ID, want)
		}
	}
}

func pattern(c *kit.C, i int) {
	r := c.Rng
	dir := filepath.Base(c.Dir())
	suffix := suffixes[r.Intn(len(suffixes))]
	ph := placeholder(c)
	pre, post := []string{"", "f", "img_", "a-b.c_"}[r.Intn(4)], []string{"", "x", "_out", "_v2"}[r.Intn(4)]
	sub := ""
	if r.Intn(4) == 0 {
		sub = "sub"
		os.Mkdir(filepath.Join(dir, sub), 0755)
	}
	pat := filepath.Join(dir, sub, pre+ph.verb+post+suffix)
	name := func(id int) string { return filepath.Join(dir, sub, pre+ph.exp(id)+post+suffix) }
	switch r.Intn(12) {
	case 0: // percent sign that is spelled out
		pat = filepath.Join(dir, sub, pre+"100%%_"+ph.verb+post+suffix)
		name = func(id int) string { return filepath.Join(dir, sub, pre+"100%_"+ph.exp(id)+post+suffix) }
	case 1: // no placeholder: one frame only
		pat = filepath.Join(dir, sub, pre+"z"+post+suffix)
		name = func(id int) string { return pat }
	case 2: // in the name of the directory
		pat = filepath.Join(dir, "n"+ph.verb, "x"+suffix)
		name = func(id int) string { return filepath.Join(dir, "n"+ph.exp(id), "x"+suffix) }
	}
	single := name(1) == name(2)
	n := 1 + r.Intn(12)
	if single {
		n = 1
	}
	ch := 1 + 2*r.Intn(2)
	var fs []*fits.Image
	want := map[string]*fits.Image{}
	var orig [][]float32
	for _, id := range ids(c, n) {
		f := frame(c, id, ch)
		fs = append(fs, f)
		want[name(id)] = f
		orig = append(orig, kit.Copy32(f.Data))
		if strings.Contains(filepath.Base(filepath.Dir(name(id))), "n") {
			os.MkdirAll(filepath.Dir(name(id)), 0755)
		}
		if r.Intn(3) == 0 { // replaces an older, longer file
			os.WriteFile(name(id), bytes.Repeat([]byte("old "), 20000), 0644)
		}
	}
	ctx, _ := kit.Context()
	ctx.MaxThreads = 1 + r.Intn(8)
	what := fmt.Sprintf("%d frames saved as %q with %d threads", n, strings.TrimPrefix(pat, dir), ctx.MaxThreads)
	outs, err := kit.RunAll(ops.NewOpSave(pat, ops.EM0_1, 1), kit.Proms(fs), ctx)
	if err != nil {
		c.Fatal("%s: %v", what, err)
	}
	if len(outs) != n {
		c.Fatal("%s: %d frames passed on", what, len(outs))
	}
	got := list(dir)
	for _, g := range got {
		if want[g] == nil {
			c.Fatal("%s: unexpected file %q, frames %v", what, g, list2(fs))
		}
	}
	if len(got) != len(want) {
		c.Fatal("%s: files %q, want %d", what, got, len(want))
	}
	for j, f := range fs {
		if outs[j] == nil || outs[j].ID != f.ID || len(outs[j].Data) != len(orig[j]) {
			c.Fatal("%s: frame %d is not passed on", what, f.ID)
		}
		for x := range orig[j] {
			if outs[j].Data[x] != orig[j][x] {
				c.Fatal("%s: changes pixel %d of frame %d", what, x, f.ID)
			}
		}
		check(c, name(f.ID), suffix, f, what)
	}
	c.Count("files compared", n)
	c.Seen(ph.verb, suffix, ctx.MaxThreads > 1, single)
	c.Sample("%s", what)
}

func list2(fs []*fits.Image) (o []int) {
	for _, f := range fs {
		o = append(o, f.ID)
	}
	return
}

// empty patterns, unknown suffixes, unsupported dimensions
func refused(c *kit.C, i int) {
	r := c.Rng
	dir := filepath.Base(c.Dir())
	f := frame(c, i, 1)
	in := kit.Copy32(f.Data)
	ctx, _ := kit.Context()
	out, err := kit.Run1(ops.NewOpSave("", ops.EMMinMax, 1), f, ctx)
	if err != nil || out != f {
		c.Fatal("empty pattern: %v", err)
	}
	for j := range in {
		if out.Data[j] != in[j] {
			c.Fatal("empty pattern changes pixels")
		}
	}
	if g := list(dir); len(g) != 0 {
		c.Fatal("empty pattern writes %q", g)
	}
	bad := []string{".png", "", ".gz", ".txt", ".fits.bz2", ".fit.zip", ".jpg.gz", ".tiff.gz", ".bmp", ".fits_", ".fitsx", "fits", ".tifff", ".html"}[r.Intn(14)]
	name := filepath.Join(dir, "a%d"+bad)
	if _, err = kit.Run1(ops.NewOpSave(name, ops.EMMinMax, 1), f, ctx); err == nil {
		c.Fatal("saving with suffix %q succeeds, files %q", bad, list(dir))
	}
	// dimensions other than mono and three colours cannot be exported as TIFF or JPEG
	ax := [][]int32{{8}, {8, 6, 2}, {8, 6, 4}, {8, 6, 1, 3}, {8, 6, 3, 2}}[r.Intn(5)]
	n := int32(1)
	for _, a := range ax {
		n *= a
	}
	m := fits.NewImageFromNaxisn(ax, kit.Noise(r, int(n), 1, 0.1))
	m.ID = 3
	suf := []string{".tif", ".tiff", ".jpg", ".jpeg"}[r.Intn(4)]
	if _, err = kit.Run1(ops.NewOpSave(filepath.Join(dir, "b%d"+suf), ops.EMMinMax, 1), m, ctx); err == nil {
		c.Fatal("saving dimensions %v as %s succeeds", ax, suf)
	}
	// FITS holds any dimensions
	if _, err = kit.Run1(ops.NewOpSave(filepath.Join(dir, "c%d.fits"), ops.EMMinMax, 1), m, ctx); err != nil {
		c.Fatal("saving dimensions %v as FITS: %v", ax, err)
	}
	b, err := ioutil.ReadFile(filepath.Join(dir, "c3.fits"))
	if err != nil || len(b)%2880 != 0 || len(b) < 2880+4*int(n) {
		c.Fatal("FITS file of dimensions %v has %d bytes: %v", ax, len(b), err)
	}
	c.Seen("refused", bad, len(ax), suf)
}

// several save steps in one pipeline do not interfere
func twoSaves(c *kit.C, i int) {
	r := c.Rng
	dir := filepath.Base(c.Dir())
	a, b := suffixes[r.Intn(len(suffixes))], suffixes[r.Intn(len(suffixes))]
	var fs []*fits.Image
	var orig []*fits.Image
	for _, id := range ids(c, 6) {
		f := frame(c, id, 1)
		fs = append(fs, f)
		orig = append(orig, kit.Img(id, int(f.Naxisn[0]), int(f.Naxisn[1]), kit.Copy32(f.Data)))
	}
	ctx, _ := kit.Context()
	ctx.MaxThreads = 4
	n := 2
	seq := ops.NewOpSequence(ops.NewOpSave(filepath.Join(dir, "one%d"+a), ops.EM0_1, 1), pre.NewOpBin(int32(n)),
		ops.NewOpSave(filepath.Join(dir, "two%03d"+b), ops.EM0_1, 1))
	outs, err := kit.RunAll(seq, kit.Proms(fs), ctx)
	if err != nil || len(outs) != len(fs) {
		c.Fatal("saving twice: %v", err)
	}
	if g := list(dir); len(g) != 2*len(fs) {
		c.Fatal("saving %d frames twice gives %q", len(fs), g)
	}
	for j, o := range outs {
		check(c, filepath.Join(dir, "one"+strconv.Itoa(orig[j].ID)+a), a, orig[j], "before binning")
		check(c, filepath.Join(dir, "two"+pad(o.ID, 3, true)+b), b, o, "after binning")
	}
	c.Seen("two saves", a, b)
}
