// C05: monitor for TIFF and JPEG export and TIFF import: exported files are
// decoded with the standard decoders and every sample is compared with the
// mapping recomputed in float64; TIFF files written by an independent encoder
// are loaded and compared sample by sample.
package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"math"
	"os"
	"path/filepath"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
	"golang.org/x/image/tiff"
)

func main() {
	kit.Main("C05", "one evaluation = one image exported and decoded, or one TIFF file loaded; distinct = format x range x gamma class x content class, or TIFF variant", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(500, 12000); i++ {
			k.Case(fmt.Sprintf("tiff/%d", i), func(c *kit.C) { export(c, i, false) })
			k.Case(fmt.Sprintf("jpeg/%d", i), func(c *kit.C) { export(c, i, true) })
			k.Case(fmt.Sprintf("load/%d", i), func(c *kit.C) { load(c, i) })
		}
		k.Case("all16bit", allValues)
	})
}

var modes = []ops.ExportMode{ops.EMMinMax, ops.EM0_1, ops.EM0_255, ops.EM0_65535}

// bounds of the sample value (of 0..1) for pixel v, allowing float32 rounding
func mapped(v float32, min, max float32, gamma float64) (lo, hi float64) {
	if v != v {
		return 0, 0
	}
	x := (float64(v) - float64(min)) / (float64(max) - float64(min))
	e := 2e-6*math.Abs(x) + 4e-7*math.Max(math.Abs(float64(v)), math.Abs(float64(min)))/(float64(max)-float64(min))
	if math.IsInf(x, 0) {
		e = 0
	}
	f := func(x float64) float64 {
		return math.Pow(math.Max(0, math.Min(1, x)), 1/gamma)
	}
	return f(x-e) * (1 - 2e-6/gamma), f(x+e) * (1 + 2e-6/gamma)
}

func decode(c *kit.C, name string, jpg bool, what string) image.Image {
	b, err := os.ReadFile(name)
	if err != nil {
		c.Fatal("%s: %v", what, err)
	}
	var im image.Image
	if jpg {
		im, err = jpeg.Decode(bytes.NewReader(b))
	} else {
		im, err = tiff.Decode(bytes.NewReader(b))
	}
	if err != nil {
		c.Fatal("%s: exported file of %d bytes does not decode: %v", what, len(b), err)
	}
	return im
}

func export(c *kit.C, i int, jpg bool) {
	r := c.Rng
	w, h := 1+r.Intn(40), 1+r.Intn(30)
	ch := 1 + 2*r.Intn(2)
	if i%13 == 0 {
		w, h = 1+r.Intn(3), 1+r.Intn(3)
	}
	if i == 17 || i == 18 { // as wide as a camera chip
		w, h, ch = 4200+r.Intn(500), 251+r.Intn(30), 1+2*(i%2)
		if i == 18 {
			w, h = h, w
		}
	}
	mode := modes[r.Intn(4)]
	full := []float64{math.Pow(10, 5*r.Float64()-1), 1, 255, 65535}[mode]
	off := 0.0
	if mode == ops.EMMinMax {
		off = full * (r.Float64()*4 - 2)
	}
	gamma := float32(1)
	gc := r.Intn(4)
	switch gc {
	case 1:
		gamma = 2.2
	case 2:
		gamma = float32(0.3 + 0.7*r.Float64())
	case 3:
		gamma = float32(1 + 3*r.Float64())
	}
	d := make([]float32, w*h*ch)
	content := r.Intn(5)
	bs := 1 // JPEG is judged on blocks of equal pixels, where coding loses little
	if jpg {
		bs = 16
	}
	for p := 0; p < ch; p++ {
		for y := 0; y < h; y += bs {
			for x := 0; x < w; x += bs {
				v := float32(off + full*r.Float64())
				switch content {
				case 1: // beyond the export range
					v = float32(off + full*(3*r.Float64()-1))
				case 2:
					switch r.Intn(6) {
					case 0:
						v = float32(math.NaN())
					case 1:
						if mode != ops.EMMinMax {
							v = float32(math.Inf(1 - 2*r.Intn(2)))
						}
					}
				case 3: // dim
					v = float32(off + full*math.Pow(r.Float64(), 6))
				case 0:
					if r.Intn(8) == 0 {
						v = 0
					}
				case 4: // whole sample values
					v = float32(off + full*float64(r.Intn(256))/255)
				}
				for yy := y; yy < y+bs && yy < h; yy++ {
					for xx := x; xx < x+bs && xx < w; xx++ {
						d[p*w*h+yy*w+xx] = v
					}
				}
			}
		}
	}
	lo, hi, sum, n := float32(math.MaxFloat32), float32(-math.MaxFloat32), 0.0, 0
	for _, v := range d {
		if v == v {
			lo, hi = float32(math.Min(float64(lo), float64(v))), float32(math.Max(float64(hi), float64(v)))
			sum += float64(v)
			n++
		}
	}
	min, max := lo, hi
	if mode != ops.EMMinMax {
		min, max = 0, float32(full)
	}
	var f *fits.Image
	if ch == 3 {
		f = kit.RGBImg(i, w, h, kit.Copy32(d))
	} else {
		f = kit.Img(i, w, h, kit.Copy32(d))
	}
	if kit.HasNaN(d) { // as read from a file
		if n == 0 {
			return
		}
		f.Stats = stats.NewStatsWithMMM(f.Data, int32(w), lo, hi, float32(sum/float64(n)))
	}
	ext := []string{"tif", "tiff", "TIF"}[r.Intn(3)]
	if jpg {
		ext = []string{"jpg", "jpeg", "JPG"}[r.Intn(3)]
	}
	name := filepath.Join(filepath.Base(c.Dir()), fmt.Sprintf("out%d.%s", i, ext))
	what := fmt.Sprintf("%dx%dx%d, mode %d, gamma %v, content %d as %s", w, h, ch, mode, gamma, content, ext)
	ctx, _ := kit.Context()
	out, err := kit.Run1(ops.NewOpSave(name, mode, gamma), f, ctx)
	if err != nil || out == nil {
		c.Fatal("%s: %v", what, err)
	}
	for j := range d {
		if !kit.Same(out.Data[j], d[j]) {
			c.Fatal("%s: export changes pixel %d", what, j)
		}
	}
	im := decode(c, name, jpg, what)
	if im.Bounds().Dx() != w || im.Bounds().Dy() != h {
		c.Fatal("%s: exported as %v", what, im.Bounds())
	}
	// colour model tells mono from colour, and the depth
	ok := true
	switch im.(type) {
	case *image.Gray:
		ok = jpg && ch == 1
	case *image.Gray16:
		ok = !jpg && ch == 1
	case *image.YCbCr:
		ok = jpg && ch == 3
	case *image.RGBA64, *image.NRGBA64:
		ok = !jpg && ch == 3
	default:
		ok = false
	}
	if !ok {
		c.Fatal("%s: exported as %T", what, im)
	}
	c.Seen(ext, mode, gc, content, ch)
	if !(max > min) {
		c.Count("images without contrast", 1)
		return
	}
	var back *fits.Image
	if !jpg {
		if back, err = kit.Load(name); err != nil {
			c.Fatal("%s: loading back: %v", what, err)
		}
		if len(back.Data) != len(d) || back.Naxisn[0] != int32(w) || back.Naxisn[1] != int32(h) || len(back.Naxisn) != len(f.Naxisn) {
			c.Fatal("%s: loads back with dimensions %v", what, back.Naxisn)
		}
	}
	for p := 0; p < ch; p++ {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				v := d[p*w*h+y*w+x]
				a, b := mapped(v, min, max, float64(gamma))
				rr, gg, bb, _ := im.At(x, y).RGBA()
				s := float64([]uint32{rr, gg, bb}[p])
				tol := 1.01
				scale := 65535.0
				if jpg {
					s /= 257
					scale, tol = 255, 3.01
					if ch == 3 {
						tol = 5.01
					}
				}
				if s < a*scale-tol || s > b*scale+tol {
					c.Fatal("%s: pixel %d,%d channel %d with value %v in [%v,%v] has sample %v, want %v", what, x, y, p, v, min, max, s, (a+b)/2*scale)
				}
				if back != nil && float64(back.Data[p*w*h+y*w+x]) != s {
					c.Fatal("%s: pixel %d,%d channel %d has sample %v, but loads back as %v", what, x, y, p, s, back.Data[p*w*h+y*w+x])
				}
			}
		}
	}
	c.Count("samples compared", w*h*ch)
	c.Sample("%s", what)
}

// every 16-bit value is exported as itself, within a quantization step, in order
func allValues(c *kit.C) {
	d := make([]float32, 65536)
	for i := range d {
		d[i] = float32(i)
	}
	f := kit.Img(0, 256, 256, d)
	name := filepath.Join(filepath.Base(c.Dir()), "all.tif")
	ctx, _ := kit.Context()
	if _, err := kit.Run1(ops.NewOpSave(name, ops.EM0_65535, 1), f, ctx); err != nil {
		c.Fatal("%v", err)
	}
	g, err := kit.Load(name)
	if err != nil {
		c.Fatal("%v", err)
	}
	prev := float32(0)
	for i, v := range g.Data {
		if math.Abs(float64(v)-float64(i)) > 1.01 || v < prev {
			c.Fatal("value %d comes back as %v", i, v)
		}
		prev = v
	}
	c.Seen("all 16-bit values")
}

// own minimal TIFF encoder
func encodeTIFF(order binary.ByteOrder, w, h, depth, spp, extra, rowsPerStrip int, pred, deflate, whiteIsZero bool, s []uint16) []byte {
	var out bytes.Buffer
	put := func(v interface{}) { binary.Write(&out, order, v) }
	if order == binary.LittleEndian {
		out.WriteString("II")
	} else {
		out.WriteString("MM")
	}
	put(uint16(42))
	var strips [][]byte
	bytesPer := depth / 8
	for y0 := 0; y0 < h; y0 += rowsPerStrip {
		var b bytes.Buffer
		for y := y0; y < y0+rowsPerStrip && y < h; y++ {
			for x := 0; x < w; x++ {
				for p := 0; p < spp; p++ {
					v := s[(y*w+x)*spp+p]
					if pred && x > 0 {
						v -= s[(y*w+x-1)*spp+p]
					}
					if bytesPer == 1 {
						b.WriteByte(byte(v))
					} else {
						binary.Write(&b, order, v)
					}
				}
			}
		}
		if deflate {
			var z bytes.Buffer
			zw := zlib.NewWriter(&z)
			zw.Write(b.Bytes())
			zw.Close()
			b = z
		}
		strips = append(strips, append([]byte(nil), b.Bytes()...))
	}
	type ent struct {
		tag, typ uint16
		v        []uint32
	}
	u := func(v ...int) (o []uint32) {
		for _, x := range v {
			o = append(o, uint32(x))
		}
		return
	}
	bits := []int{}
	for p := 0; p < spp; p++ {
		bits = append(bits, depth)
	}
	comp, photo := 1, 2
	if deflate {
		comp = 8
	}
	if spp == 1 {
		photo = 1
		if whiteIsZero {
			photo = 0
		}
	}
	off, cnt := []uint32{}, []uint32{}
	pos := 8
	for _, b := range strips {
		off = append(off, uint32(pos))
		cnt = append(cnt, uint32(len(b)))
		pos += len(b)
	}
	if pos%2 == 1 {
		pos++
	}
	ents := []ent{{256, 3, u(w)}, {257, 3, u(h)}, {258, 3, u(bits...)}, {259, 3, u(comp)}, {262, 3, u(photo)},
		{273, 4, off}, {277, 3, u(spp)}, {278, 3, u(rowsPerStrip)}, {279, 4, cnt}}
	if pred {
		ents = append(ents, ent{317, 3, u(2)})
	}
	if extra > 0 {
		ents = append(ents, ent{338, 3, u(extra)})
	}
	put(uint32(pos)) // IFD offset
	for _, b := range strips {
		out.Write(b)
	}
	for out.Len() < pos {
		out.WriteByte(0)
	}
	put(uint16(len(ents)))
	far := pos + 2 + 12*len(ents) + 4
	var tail bytes.Buffer
	for _, e := range ents {
		put(e.tag)
		put(e.typ)
		put(uint32(len(e.v)))
		size := 2
		if e.typ == 4 {
			size = 4
		}
		var b bytes.Buffer
		for _, x := range e.v {
			if size == 2 {
				binary.Write(&b, order, uint16(x))
			} else {
				binary.Write(&b, order, x)
			}
		}
		if b.Len() <= 4 {
			out.Write(b.Bytes())
			out.Write(make([]byte, 4-b.Len()))
		} else {
			put(uint32(far + tail.Len()))
			tail.Write(b.Bytes())
		}
	}
	put(uint32(0))
	out.Write(tail.Bytes())
	return out.Bytes()
}

func load(c *kit.C, i int) {
	r := c.Rng
	w, h := 1+r.Intn(40), 1+r.Intn(30)
	depth := []int{8, 16}[i&1]
	spp := []int{1, 3, 4}[i/2%3]
	extra := 0
	if spp == 4 {
		extra = 2 // unassociated alpha keeps the sample values
	}
	s := make([]uint16, w*h*spp)
	for j := range s {
		s[j] = uint16(r.Intn(1 << depth))
		if r.Intn(4) == 0 {
			s[j] = uint16(r.Intn(4))
		}
		if r.Intn(8) == 0 {
			s[j] = uint16(1<<depth - 1)
		}
		if spp == 4 && j%4 == 3 {
			s[j] = uint16(1<<depth - 1) // opaque
			if i%4 == 0 {
				s[j] = uint16(r.Intn(1 << depth))
			}
		}
	}
	var order binary.ByteOrder = binary.LittleEndian
	if r.Intn(2) == 0 {
		order = binary.BigEndian
	}
	rows := 1 + r.Intn(h)
	deflate, pred := r.Intn(3) == 0, false
	if deflate {
		pred = r.Intn(2) == 0
	}
	what := fmt.Sprintf("%dx%d TIFF of %d samples of %d bits, %v, %d rows per strip, deflate %v predictor %v", w, h, spp, depth, order, rows, deflate, pred)
	b := encodeTIFF(order, w, h, depth, spp, extra, rows, pred, deflate, false, s)
	name := filepath.Join(filepath.Base(c.Dir()), fmt.Sprintf("in%d.%s", i, []string{"tif", "tiff", "TIFF"}[r.Intn(3)]))
	if err := os.WriteFile(name, b, 0644); err != nil {
		c.Fatal("VK: %v", err)
	}
	if i%50 == 49 { // colour models without gray or RGB samples
		pal := image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.Black, color.White, color.RGBA{255, 0, 0, 255}})
		var pb bytes.Buffer
		if err := tiff.Encode(&pb, pal, nil); err != nil {
			c.Fatal("VK: %v", err)
		}
		os.WriteFile(name, pb.Bytes(), 0644)
		if f, err := kit.Load(name); err == nil && (f == nil || len(f.Data) != w*h && len(f.Data) != 3*w*h) {
			c.Fatal("paletted TIFF loads without an error, but with wrong size")
		}
		c.Seen("paletted")
		return
	}
	f, err := kit.Load(name)
	if err != nil {
		// only what the decoder itself cannot read may be refused
		if _, e := tiff.Decode(bytes.NewReader(b)); e != nil {
			c.Count("refused by the TIFF decoder", 1)
			return
		}
		c.Fatal("%s: %v", what, err)
	}
	ch := 3
	if spp == 1 {
		ch = 1
	}
	if len(f.Data) != w*h*ch || int(f.Pixels) != len(f.Data) || len(f.Naxisn) < 2 || f.Naxisn[0] != int32(w) || f.Naxisn[1] != int32(h) ||
		len(f.Naxisn) != map[int]int{1: 2, 3: 3}[ch] || (ch == 3 && f.Naxisn[2] != 3) {
		c.Fatal("%s: loads with dimensions %v and %d pixels", what, f.Naxisn, len(f.Data))
	}
	if f.Bscale != 1 || f.Bzero != 0 {
		c.Fatal("%s: loads with scale %v and offset %v", what, f.Bscale, f.Bzero)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for p := 0; p < ch; p++ {
				if got, want := f.Data[p*w*h+y*w+x], float32(s[(y*w+x)*spp+p]); got != want {
					c.Fatal("%s: pixel %d,%d channel %d is %v in the file, loaded as %v", what, x, y, p, want, got)
				}
			}
		}
	}
	kit.CheckStats(c, f, what)
	c.Count("samples loaded", w*h*ch)
	c.Seen("load", depth, spp, order.String(), deflate, pred)
	c.Sample("%s", what)
}
