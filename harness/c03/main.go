// C03: damaged input monitor. Valid files are truncated at every byte, their
// headers and compressed streams are corrupted, and reads fail at every byte; a
// load must end with an error or a complete image, and never crash.
package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	ref "github.com/mlnoga/nightlight/internal/zzverif/fitsref"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
	"golang.org/x/image/tiff"
)

type base struct {
	name   string
	file   []byte
	header int // bytes of header
	need   int // bytes up to the end of the declared data
}

func makeBase(r *rand.Rand, bp int, axes []int, cards int) base {
	cs := []string{ref.KV("SIMPLE", "T"), ref.KV("BITPIX", strconv.Itoa(bp)), ref.KV("NAXIS", strconv.Itoa(len(axes)))}
	n := 1
	for i, a := range axes {
		cs = append(cs, ref.KV(fmt.Sprintf("NAXIS%d", i+1), strconv.Itoa(a)))
		n *= a
	}
	if bp == 16 {
		cs = append(cs, ref.KV("BZERO", "32768"), ref.KV("BSCALE", "1"))
	}
	cs = append(cs, ref.KV("EXPTIME", "12.5"), ref.Card("OBJECT  = 'M 31'"))
	for i := 0; i < cards; i++ {
		cs = append(cs, ref.KV(fmt.Sprintf("KEY%d", i), strconv.Itoa(i)))
	}
	hl := (len(cs) + 1) * 80
	hl = (hl + 2879) / 2880 * 2880
	var data []byte
	for i := 0; i < n; i++ {
		data = ref.EncodeValue(data, bp, int64(r.Intn(100)), r.Float64()*100)
	}
	f := ref.Build(cs, data, true)
	return base{fmt.Sprintf("bp%d%v+%d", bp, axes, cards), f, hl, hl + len(data)}
}

type faultReader struct {
	b    []byte
	at   int
	err  error
	r    *rand.Rand
	with bool // deliver the error together with the last data
	pos  int
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.pos >= f.at {
		return 0, f.err
	}
	n := len(p)
	if f.r.Intn(3) == 0 {
		n = 1 + f.r.Intn(len(p))
	}
	if n > f.at-f.pos {
		n = f.at - f.pos
	}
	copy(p, f.b[f.pos:f.pos+n])
	f.pos += n
	if f.pos >= f.at && f.with {
		return n, f.err
	}
	return n, nil
}

// judge checks the outcome of a load. avail is the number of bytes the reader
// could deliver, or -1 if unknown.
func judge(c *kit.C, what string, im *fits.Image, err error, avail int) bool {
	if err != nil {
		if im != nil && false {
			return false
		}
		c.Count("errors_reported", 1)
		return false
	}
	if im == nil {
		c.Fail("%s: neither an image nor an error", what)
		return true
	}
	p := int64(1)
	for _, a := range im.Naxisn {
		p *= int64(a)
	}
	if len(im.Naxisn) == 0 || int64(len(im.Data)) != p || int64(im.Pixels) != p {
		c.Fail("%s: success with axes %v, Pixels %d and %d data values", what, im.Naxisn, im.Pixels, len(im.Data))
	}
	if im.Stats == nil {
		c.Fail("%s: success without statistics", what)
	}
	if avail >= 0 {
		b := int64(im.Bitpix) / 8
		if b < 0 {
			b = -b
		}
		if p*b > int64(avail)-int64(im.Header.Length) {
			c.Fail("%s: success for axes %v bitpix %d, but only %d of %d data bytes exist", what, im.Naxisn, im.Bitpix, avail-int(im.Header.Length), p*b)
		}
	}
	c.Count("loads_succeeded", 1)
	return true
}

func readBytes(r io.Reader) (im *fits.Image, err error) {
	im = fits.NewImage()
	err = im.Read(r, true, kit.Discard)
	return
}

func gzb(b []byte) []byte {
	var o bytes.Buffer
	g, _ := gzip.NewWriterLevel(&o, 6)
	g.Write(b)
	g.Close()
	return o.Bytes()
}

func main() {
	kit.Main("C03", "one case = one valid file damaged in one systematic way (truncated at each byte, read error at each byte, header card or byte corrupted, gzip stream corrupted or truncated); non-trivial = distinct (file kind, damage kind, damage position) loaded under watch", func(k *kit.K) {
		for _, bp := range []int{8, 16, 32, 64, -32, -64} {
			for ai, axes := range [][]int{{11, 7}, {5, 3, 2}} {
				k.Case(fmt.Sprintf("truncate/bp%d/%d", bp, ai), func(c *kit.C) { truncate(c, makeBase(c.Rng, bp, axes, ai*40), false) })
				k.Case(fmt.Sprintf("readerror/bp%d/%d", bp, ai), func(c *kit.C) { readError(c, makeBase(c.Rng, bp, axes, ai*40)) })
			}
			k.Case(fmt.Sprintf("truncate-large/bp%d", bp), func(c *kit.C) { truncate(c, makeBase(c.Rng, bp, []int{130, 67}, 0), true) })
		}
		k.Case("truncate-gz", truncateGz)
		for i := 0; i < k.N(20, 400); i++ {
			k.Case(fmt.Sprintf("gzflip/%d", i), gzFlip)
			k.Case(fmt.Sprintf("headerflip/%d", i), headerFlip)
			k.Case(fmt.Sprintf("hostile/%d", i), func(c *kit.C) { hostile(c, i) })
			k.Case(fmt.Sprintf("random/%d", i), random)
		}
		k.Case("files", files)
		k.Case("tiff", tiffs)
	})
}

func truncate(c *kit.C, b base, large bool) {
	step := 1
	if large {
		step = 0
	}
	n := 0
	for at := 0; at < len(b.file); {
		im, err := readBytes(bytes.NewReader(b.file[:at]))
		ok := judge(c, fmt.Sprintf("%s truncated to %d of %d bytes", b.name, at, b.need), im, err, at)
		if ok != (at >= b.need) {
			c.Fatal("%s truncated to %d bytes (needs %d): err=%v", b.name, at, b.need, err)
		}
		n++
		c.Seen("t", b.name, at)
		if step > 0 {
			at += step
			if at < b.header && at > 200 && at < b.header-100 {
				at += 12
			}
		} else if at+20 > b.need && at < b.need+20 {
			at++
		} else {
			at += 1 + c.Rng.Intn(600)
			if at > b.need-18 && at < b.need {
				at = b.need - 18
			}
		}
	}
	c.Sample("%s truncated at %d positions, complete from byte %d on", b.name, n, b.need)
}

func readError(c *kit.C, b base) {
	for at := 0; at < b.need+3; at++ {
		if at > 100 && at < b.header-40 && at%37 != 0 {
			continue
		}
		for _, e := range []error{errors.New("disk failure"), io.ErrUnexpectedEOF, io.EOF} {
			for _, with := range []bool{false, true} {
				im, err := readBytes(&faultReader{b: b.file, at: at, err: e, r: c.Rng, with: with})
				ok := judge(c, fmt.Sprintf("%s with %v at byte %d", b.name, e, at), im, err, at)
				// a failure after the last needed byte need not be noticed
				if ok && at < b.need || !ok && at >= b.need && e == io.EOF {
					c.Fatal("%s with read error %v at byte %d (needs %d): err=%v", b.name, e, at, b.need, err)
				}
				c.Seen("e", b.name, at, e.Error(), with)
			}
		}
	}
}

func loadFile(c *kit.C, name string, b []byte) (*fits.Image, error) {
	d := c.Dir()
	defer c.K.CleanDir(d)
	p := filepath.Join(d, name)
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	return fits.NewImageFromFile(p, 1, kit.Discard)
}

func loadOp(c *kit.C, name string, b []byte) (*fits.Image, error) {
	p := name
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	defer os.Remove(p)
	ctx, _ := kit.Context()
	ps, err := ops.NewOpLoadMany([]string{name}).MakePromises(nil, ctx)
	if err != nil {
		return nil, err
	}
	fs, err := ops.MaterializeAll(ps, 2, false)
	if err != nil {
		return nil, err
	}
	if len(fs) != 1 {
		c.Fatal("loading one file gave %d images", len(fs))
	}
	return fs[0], nil
}

func truncateGz(c *kit.C) {
	for _, bp := range []int{16, -32} {
		b := makeBase(c.Rng, bp, []int{40, 30}, 0)
		z := gzb(b.file[:b.need])
		for at := 0; at < len(z); at++ {
			if c.K.Tier != "thorough" && at > 40 && at < len(z)-40 && at%7 != 0 {
				continue
			}
			im, err := loadFile(c, "t.fits.gz", z[:at])
			ok := judge(c, fmt.Sprintf("gzip file truncated to %d of %d", at, len(z)), im, err, -1)
			if ok && len(im.Data) != 1200 {
				c.Fatal("gzip file truncated to %d of %d: %d pixels", at, len(z), len(im.Data))
			}
			if ok && at < len(z)-8-6 { // trailer and end-of-block marker are not pixel data
				c.Fatal("gzip file truncated to %d of %d bytes loads without error", at, len(z))
			}
			c.Seen("gz", bp, at)
		}
	}
}

func gzFlip(c *kit.C) {
	b := makeBase(c.Rng, []int{8, 16, 32, -32}[c.Rng.Intn(4)], []int{20 + c.Rng.Intn(20), 30}, 0)
	z := gzb(b.file)
	for i := 0; i < 40; i++ {
		y := append([]byte(nil), z...)
		for n := 1 + c.Rng.Intn(3); n > 0; n-- {
			y[c.Rng.Intn(len(y))] ^= byte(1 << uint(c.Rng.Intn(8)))
		}
		if c.Rng.Intn(4) == 0 {
			p := c.Rng.Intn(len(y))
			y = append(y[:p], y[p+1+c.Rng.Intn(len(y)-p-1+1)/2:]...)
		}
		im, err := loadFile(c, "f.fit.gz", y)
		if err == nil && guard(im) {
			judge(c, fmt.Sprintf("gzip flip %d", i), im, err, -1)
		}
		c.Seen("gzflip", b.name, i, c.Name)
	}
}

func guard(im *fits.Image) bool { return true }

func headerFlip(c *kit.C) {
	b := makeBase(c.Rng, []int{8, 16, 32, 64, -32, -64}[c.Rng.Intn(6)], [][]int{{20, 30}, {600}, {5, 10, 3}}[c.Rng.Intn(3)], c.Rng.Intn(40))
	for i := 0; i < 60; i++ {
		y := append([]byte(nil), b.file...)
		for n := 1 + c.Rng.Intn(3); n > 0; n-- {
			p := c.Rng.Intn(80 * 9)
			switch c.Rng.Intn(3) {
			case 0:
				y[p] ^= byte(1 << uint(c.Rng.Intn(8)))
			case 1:
				y[p] = " 0123456789'/.=-TFEND"[c.Rng.Intn(21)]
			case 2: // inside a value
				y[p/80*80+10+c.Rng.Intn(20)] = "0123456789-"[c.Rng.Intn(11)]
			}
		}
		if huge(y) {
			continue
		}
		im, err := readBytes(bytes.NewReader(y))
		judge(c, fmt.Sprintf("header flip %d of %s", i, b.name), im, err, len(y))
		c.Seen("flip", c.Name, i)
	}
}

// huge tells whether a header asks for so much memory that the check itself
// would get into trouble.
func huge(b []byte) bool {
	p := int64(1)
	for pos := 0; pos+80 <= len(b) && pos < 2880; pos += 80 {
		s := string(b[pos : pos+80])
		if strings.HasPrefix(s, "NAXIS") && len(s) > 9 && s[5] != ' ' {
			f := strings.Fields(strings.ReplaceAll(s[8:], "=", " "))
			if len(f) > 0 {
				v, err := strconv.ParseInt(strings.Trim(f[0], "/"), 10, 64)
				if err == nil && v > 1 {
					p *= v
					if p > 1<<40 {
						return false // overflow: must be refused
					}
				}
			}
		}
	}
	return p > 300e6 && p < 1<<31
}

func hostile(c *kit.C, i int) {
	vals := []string{"0", "-1", "1", "2", "-2147483648", "2147483647", "2147483648", "4294967297", "9999999999999999999999", "T", "'abc'", "1.5", "65536", "46341", "1000", "", "1E3", "+3", "-0", "2.0"}
	for n := 0; n < 40; n++ {
		pick := func(def string) string {
			if c.Rng.Intn(3) > 0 {
				return def
			}
			return vals[c.Rng.Intn(len(vals))]
		}
		cs := []string{ref.KV("SIMPLE", []string{"T", "T", "T", "T", "F", "1"}[c.Rng.Intn(6)]), ref.KV("BITPIX", pick([]string{"16", "8", "-32"}[c.Rng.Intn(3)])), ref.KV("NAXIS", pick("2")),
			ref.KV("NAXIS1", pick("11")), ref.KV("NAXIS2", pick("7")), ref.KV("NAXIS3", pick("1")), ref.KV("BZERO", pick("0")), ref.KV("BSCALE", pick("1")), ref.KV("EXPTIME", pick("1"))}
		if c.Rng.Intn(3) == 0 { // drop or double a card
			p := c.Rng.Intn(len(cs))
			if c.Rng.Intn(2) == 0 {
				cs = append(cs[:p], cs[p+1:]...)
			} else {
				cs = append(cs, cs[p])
			}
		}
		if c.Rng.Intn(6) == 0 {
			c.Rng.Shuffle(len(cs), func(a, b int) { cs[a], cs[b] = cs[b], cs[a] })
		}
		data := make([]byte, c.Rng.Intn(8000))
		c.Rng.Read(data)
		y := ref.Build(cs, data, c.Rng.Intn(2) == 0)
		if huge(y) {
			continue
		}
		im, err := readBytes(bytes.NewReader(y))
		judge(c, "hostile header "+strings.Join(trim(cs), "; "), im, err, len(y))
		c.Seen("hostile", strings.Join(trim(cs), ";"), len(data))
		if n == 0 && i < 3 {
			c.Sample("%s + %d data bytes: err=%v", strings.Join(trim(cs), "; "), len(data), err)
		}
	}
}

func trim(cs []string) (o []string) {
	for _, s := range cs {
		o = append(o, strings.Join(strings.Fields(s), ""))
	}
	return
}

func random(c *kit.C) {
	for i := 0; i < 20; i++ {
		y := make([]byte, c.Rng.Intn(9000))
		c.Rng.Read(y)
		if c.Rng.Intn(2) == 0 {
			copy(y, ref.KV("SIMPLE", "T"))
		}
		if c.Rng.Intn(3) == 0 && len(y) > 4000 {
			for p := range y[:2880] {
				y[p] = byte(32 + int(y[p])%95)
			}
			copy(y[2800:], ref.Card("END"))
		}
		name := []string{"x.fits", "x.fit.gz", "x.fts", "x.tif"}[c.Rng.Intn(4)]
		im, err := loadFile(c, name, y)
		judge(c, "random bytes as "+name, im, err, -1)
		if err == nil {
			c.Fail("%d random bytes load as %s without error", len(y), name)
		}
		c.Seen("random", c.Name, i)
	}
}

func files(c *kit.C) {
	b := makeBase(c.Rng, 16, []int{40, 30}, 0)
	for _, name := range []string{"z.fits", "z.fits.gz"} {
		f := b.file
		if strings.HasSuffix(name, "gz") {
			f = gzb(f)
		}
		if im, err := loadOp(c, name, f); err != nil || im == nil {
			c.Fatal("intact file %s: %v", name, err)
		}
		for i := 0; i < 30; i++ {
			at := c.Rng.Intn(len(f) * 3 / 5)
			im, err := loadOp(c, name, f[:at])
			if judge(c, name, im, err, -1) {
				c.Fail("%s truncated to %d of %d bytes loads through the load operator", name, at, len(f))
			}
			c.Seen("op", name, at)
		}
	}
	if _, err := fits.NewImageFromFile("nonexistent.fits", 0, kit.Discard); err == nil {
		c.Fail("loading a nonexistent file succeeds")
	}
	os.Mkdir("dir.fits", 0755)
	if _, err := fits.NewImageFromFile("dir.fits", 0, kit.Discard); err == nil {
		c.Fail("loading a directory succeeds")
	}
	if im, err := loadFile(c, "empty.fits", nil); err == nil {
		c.Fail("empty file loads: %v", im)
	}
	if im, err := loadFile(c, "empty.fits.gz", nil); err == nil {
		c.Fail("empty gzip file loads: %v", im)
	}
}

func tiffs(c *kit.C) {
	im := image.NewGray16(image.Rect(0, 0, 23, 17))
	for i := 0; i < 23*17; i++ {
		im.SetGray16(i%23, i/23, color.Gray16{uint16(c.Rng.Intn(65536))})
	}
	var o bytes.Buffer
	tiff.Encode(&o, im, nil)
	var oz bytes.Buffer
	tiff.Encode(&oz, im, &tiff.Options{Compression: tiff.Deflate})
	for fi, f := range [][]byte{o.Bytes(), oz.Bytes()} {
		if _, err := loadFile(c, "a.tif", f); err != nil {
			c.Fatal("intact TIFF: %v", err)
		}
		for at := 0; at < len(f); at++ {
			g, err := loadFile(c, "a.tif", f[:at])
			if err == nil && len(g.Data) != 23*17 {
				c.Fail("TIFF truncated to %d of %d bytes: %d pixels", at, len(f), len(g.Data))
			}
			c.Seen("tiff", fi, at)
		}
		for i := 0; i < c.K.N(300, 5000); i++ {
			y := append([]byte(nil), f...)
			for n := 1 + c.Rng.Intn(2); n > 0; n-- {
				y[c.Rng.Intn(len(y))] ^= byte(1 << uint(c.Rng.Intn(8)))
			}
			g, err := loadFile(c, "b.tif", y)
			judge(c, fmt.Sprintf("TIFF flip %d", i), g, err, -1)
		}
	}
}
