// C04: fault injection for output files: the file size limit makes the storage
// run full at every byte position of every output format; a monitor checks that
// the save step reports it, and that a successful save left the complete file.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// limited runs fn while files of this process cannot grow beyond n bytes.
func limited(c *kit.C, n int64, fn func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		c.Fatal("VK: %v", err)
	}
	lim := old
	lim.Cur = uint64(n)
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		c.Fatal("VK: %v", err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	fn()
}

type format struct {
	suffix string
	ch     int
}

var formats = []format{{".fits", 1}, {".fits", 3}, {".fits.gz", 1}, {".fit.gzip", 3}, {".tif", 1}, {".tiff", 3}, {".jpg", 1}, {".jpeg", 3}}

func frame(c *kit.C, ch, w, h int) *fits.Image {
	d := kit.Noise(c.Rng, w*h*ch, 0.5, 0.1)
	if ch == 3 {
		return kit.RGBImg(7, w, h, d)
	}
	return kit.Img(7, w, h, d)
}

func main() {
	kit.Main("C04", "one evaluation = one format whose output was cut off at every sampled position; distinct = format x position class x operator", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(1, 6); i++ {
			for j, f := range formats {
				k.Case(fmt.Sprintf("full/%s/%d/%d", strings.Trim(f.suffix, "."), f.ch, i), func(c *kit.C) { full(c, f, 12+c.Rng.Intn(24), 12+c.Rng.Intn(20), 1) })
				k.Case(fmt.Sprintf("large/%s/%d/%d", strings.Trim(f.suffix, "."), f.ch, i), func(c *kit.C) { full(c, f, 60+c.Rng.Intn(40), 60+c.Rng.Intn(30), 97+c.Rng.Intn(60)) })
				k.Case(fmt.Sprintf("blocks/%s/%d/%d", strings.Trim(f.suffix, "."), f.ch, i), func(c *kit.C) { // whole blocks of data
					full(c, f, 24, 30*(1+c.Rng.Intn(3)), 7+c.Rng.Intn(5))
				})
				k.Case(fmt.Sprintf("blip/%s/%d/%d", strings.Trim(f.suffix, "."), f.ch, i), func(c *kit.C) { blip(c, f) })
				k.Case(fmt.Sprintf("path/%d/%d", j, i), func(c *kit.C) { paths(c, f) })
				k.Case(fmt.Sprintf("steps/%d/%d", j, i), func(c *kit.C) { steps(c, f) })
			}
			k.Case(fmt.Sprintf("stats/%d", i), func(c *kit.C) { statistics(c) })
		}
	})
}

// cut off at every step-th byte, and around the end
func full(c *kit.C, fm format, w, h, step int) {
	dir := filepath.Base(c.Dir())
	name := filepath.Join(dir, "a"+fm.suffix)
	f := frame(c, fm.ch, w, h)
	ctx, _ := kit.Context()
	save := ops.NewOpSave(name, ops.EMMinMax, 1)
	if _, err := kit.Run1(save, f, ctx); err != nil {
		c.Fatal("%s: %v", fm.suffix, err)
	}
	good, err := os.ReadFile(name)
	if err != nil {
		c.Fatal("%s: no file after a successful save", fm.suffix)
	}
	size := len(good)
	g, lerr := (*fits.Image)(nil), error(nil)
	if !strings.HasPrefix(fm.suffix, ".j") {
		if g, lerr = kit.Load(name); lerr != nil || len(g.Data) != len(f.Data) {
			c.Fatal("%s: file of %d bytes does not load: %v", fm.suffix, size, lerr)
		}
	} else if !bytes.HasSuffix(good, []byte{0xff, 0xd9}) {
		c.Fatal("%s: JPEG file without end marker", fm.suffix)
	}
	reported := 0
	for n := 0; n <= size+2; n++ {
		if n%step != 0 && n < size-12 && n > 12 {
			continue
		}
		if c.Rng.Intn(2) == 0 {
			os.Remove(name)
		}
		var out *fits.Image
		limited(c, int64(n), func() { out, err = kit.Run1(save, f, ctx) })
		b, _ := os.ReadFile(name)
		if err == nil && !bytes.Equal(b, good) {
			c.Fatal("%s: saving succeeds with storage for %d of %d bytes, leaving %d bytes", fm.suffix, n, size, len(b))
		}
		if err == nil && out != f {
			c.Fatal("%s: image is not passed on", fm.suffix)
		}
		if err != nil && n >= size {
			c.Fatal("%s: saving fails with storage for %d of %d bytes: %v", fm.suffix, n, size, err)
		}
		if err != nil {
			reported++
		}
	}
	c.Count("positions cut off and reported: "+fm.suffix, reported)
	if reported == 0 {
		c.Fatal("VK: no fault injected")
	}
	c.Seen("full", fm.suffix, fm.ch, size/4096)
	c.Sample("%s of %d bytes: %d cut-off positions reported", fm.suffix, size, reported)
}

// writer fails once, in the n-th call, after part of the data
type writer struct {
	n, part int
	b       bytes.Buffer
	failed  bool
}

func (w *writer) Write(p []byte) (int, error) {
	w.n--
	if w.n == 0 {
		w.failed = true
		k := len(p) * w.part / 4
		w.b.Write(p[:k])
		return k, errors.New("no space left for a moment")
	}
	return w.b.Write(p)
}

// a passing fault of the storage, which later writes do not see
func blip(c *kit.C, fm format) {
	w, h := 24+c.Rng.Intn(100), 30
	f := frame(c, fm.ch, w, h)
	write := func(o *writer) error {
		switch {
		case strings.HasPrefix(fm.suffix, ".f"):
			return f.Write(o)
		case strings.HasPrefix(fm.suffix, ".t") && fm.ch == 1:
			return f.WriteMonoTIFF16(o, 0, 1, 1)
		case strings.HasPrefix(fm.suffix, ".t"):
			return f.WriteTIFF16(o, 0, 1, 1)
		case fm.ch == 1:
			return f.WriteMonoJPG(o, 0, 1, 1, 95)
		}
		return f.WriteJPG(o, 0, 1, 1, 95)
	}
	good := &writer{}
	if err := write(good); err != nil {
		c.Fatal("%s: %v", fm.suffix, err)
	}
	calls := -good.n
	for n := 1; n <= calls; n++ {
		if calls > 400 && n > 20 && n < calls-20 && n%(calls/200) != 0 {
			continue
		}
		o := &writer{n: n, part: c.Rng.Intn(4)}
		if err := write(o); err == nil && (o.failed || !bytes.Equal(o.b.Bytes(), good.b.Bytes())) {
			c.Fatal("%s: write %d of %d fails, but writing the image succeeds with %d of %d bytes", fm.suffix, n, calls, o.b.Len(), good.b.Len())
		}
		c.Count("failed writes reported", 1)
	}
	c.Seen("blip", fm.suffix, fm.ch, calls)
}

// names that cannot be created or written
func paths(c *kit.C, fm format) {
	dir := filepath.Base(c.Dir())
	f := frame(c, fm.ch, 20+c.Rng.Intn(60), 20+c.Rng.Intn(60))
	ctx, _ := kit.Context()
	os.Mkdir(filepath.Join(dir, "isdir"+fm.suffix), 0755)
	os.WriteFile(filepath.Join(dir, "file"), nil, 0644)
	os.Symlink("/dev/full", filepath.Join(dir, "full"+fm.suffix))
	os.Symlink(filepath.Join("nowhere", "x"), filepath.Join(dir, "dangling"+fm.suffix))
	os.Symlink("loop"+fm.suffix, filepath.Join(dir, "loop"+fm.suffix))
	for _, n := range []string{"nodir/a", "isdir", "file/a", "full", "dangling", "loop", strings.Repeat("n", 300), "a\x00b"} {
		if _, err := kit.Run1(ops.NewOpSave(filepath.Join(dir, n+fm.suffix), ops.EM0_1, 1), f, ctx); err == nil {
			c.Fatal("saving to %q succeeds", n+fm.suffix)
		}
		// the error of one frame reaches the caller of a parallel evaluation
		fs := []*fits.Image{f, frame(c, fm.ch, 12, 12)}
		if _, err := kit.RunAll(ops.NewOpSave(filepath.Join(dir, n+fm.suffix), ops.EM0_1, 1), kit.Proms(fs), ctx); err == nil {
			c.Fatal("saving frames in parallel to %q succeeds", n+fm.suffix)
		}
		c.Count("unwritable paths reported", 2)
		c.Seen("path", n, fm.suffix)
	}
	if _, err := os.Stat(filepath.Join(dir, "full"+fm.suffix)); err != nil {
		c.Fatal("VK: %v", err)
	}
}

// operators that save on the side, and saving within sequences and batches
func steps(c *kit.C, fm format) {
	dir := filepath.Base(c.Dir())
	full := filepath.Join(dir, "full"+fm.suffix)
	os.Symlink("/dev/full", full)
	ctx, _ := kit.Context()
	mono := func() *fits.Image {
		d := kit.Noise(c.Rng, 64*64, 0.2, 0.01)
		for _, s := range kit.StarField(c.Rng, 64, 64, 8, 8, 9) {
			s.Flux, s.Sigma = 3, 1.2
			kit.Render(d, 64, 64, s)
		}
		return kit.Img(1, 64, 64, d)
	}
	all := map[string]ops.Operator{
		"background":     pre.NewOpBackExtract(16, 4, 1.5, 0, full),
		"star detection": pre.NewOpStarDetect(8, 3, 0, 1.4, full),
		"sequence":       ops.NewOpSequence(pre.NewOpBin(2), ops.NewOpSave(full, ops.EMMinMax, 1), pre.NewOpBin(2)),
		"batches": stack.NewOpStackBatches(ops.NewOpSequence(
			stack.NewOpStack(stack.StMean, 0, 3, 3), ops.NewOpSave(full, ops.EMMinMax, 1))),
	}
	for _, n := range []string{"background", "star detection", "sequence", "batches"} {
		outs, err := all[n].MakePromises(kit.Proms([]*fits.Image{mono(), mono(), mono()}), ctx)
		var fs []*fits.Image
		if err == nil {
			fs, err = ops.MaterializeAll(outs, 2, false)
		}
		if err == nil {
			c.Fatal("%s: saving to %s on a full device succeeds, %d images", n, fm.suffix, len(fs))
		}
		if !strings.Contains(err.Error(), "no space left") {
			c.Count("error does not name the cause: "+n, 1)
		}
		c.Count("side outputs reported", 1)
		c.Seen("step", n, fm.suffix)
	}
}

// statistics export
func statistics(c *kit.C) {
	dir := filepath.Base(c.Dir())
	name := filepath.Join(dir, "s.html")
	frames := func() (fs []*fits.Image) {
		for i := 0; i < 5; i++ {
			fs = append(fs, frame(c, 1, 16, 16))
			fs[i].ID = i
		}
		return
	}
	fs := frames()
	run := func() (err error) {
		ctx, _ := kit.Context()
		ctx.MaxThreads = 1
		_, err = kit.RunAll(ref.NewOpExportStats(name), kit.Proms(fs), ctx)
		return
	}
	if err := run(); err != nil {
		c.Fatal("statistics: %v", err)
	}
	good, err := os.ReadFile(name)
	if err != nil {
		c.Fatal("statistics: %v", err)
	}
	reported := 0
	for n := 0; n <= len(good)+2; n++ {
		if c.Rng.Intn(2) == 0 {
			os.Remove(name)
		}
		limited(c, int64(n), func() { err = run() })
		b, _ := os.ReadFile(name)
		if err == nil && !bytes.Equal(b, good) {
			c.Fatal("statistics: export succeeds with storage for %d of %d bytes", n, len(good))
		}
		if err != nil && n >= len(good) {
			c.Fatal("statistics: export fails with storage for %d of %d bytes: %v", n, len(good), err)
		}
		if err != nil {
			reported++
		}
	}
	c.Count("positions cut off and reported: statistics", reported)
	os.Symlink("/dev/full", filepath.Join(dir, "full.html"))
	os.Mkdir(filepath.Join(dir, "isdir"), 0755)
	for _, n := range []string{"full.html", "isdir", "nodir/x.html"} {
		ctx, _ := kit.Context()
		if _, err := kit.RunAll(ref.NewOpExportStats(filepath.Join(dir, n)), kit.Proms(fs), ctx); err == nil {
			c.Fatal("statistics export to %s succeeds", n)
		}
	}
	if reported == 0 {
		c.Fatal("VK: no fault injected")
	}
	c.Seen("stats", len(good))
}
