// C02: FITS save/load monitor. Every saved file is parsed by an independent
// strict reader and loaded back by the real one; all pixels and header entries
// are compared with what was in memory.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	ref "github.com/mlnoga/nightlight/internal/zzverif/fitsref"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

var special = []float32{0, 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32,
	math.SmallestNonzeroFloat32, 65535, 1e-30, float32(math.Copysign(0, -1)), math.Float32frombits(0x00ff00ff), math.Float32frombits(0x01020304)}

func makeImage(r *rand.Rand, axes []int32, nan bool) *fits.Image {
	f := fits.NewImageFromNaxisn(axes, nil)
	for i := range f.Data {
		switch r.Intn(10) {
		case 0:
			f.Data[i] = special[r.Intn(len(special))]
		case 1:
			f.Data[i] = math.Float32frombits(r.Uint32())
		default:
			f.Data[i] = float32(r.NormFloat64() * 1000)
		}
		if f.Data[i] != f.Data[i] && !nan {
			f.Data[i] = 7
		}
	}
	if nan && len(f.Data) > 0 {
		f.Data[r.Intn(len(f.Data))] = float32(math.NaN())
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		f.Exposure = float32(r.Intn(1000))
	case 2:
		f.Exposure = r.Float32() * 1e-3
	case 3:
		f.Exposure = r.Float32() * 1e5
	}
	return f
}

func header(r *rand.Rand, h *fits.Header, n int) {
	for i := 0; i < n; i++ {
		key := fmt.Sprintf("%c%s%d", 'A'+rune(r.Intn(26)), []string{"KEY", "K-", "Q_", "V"}[r.Intn(4)], i)
		switch r.Intn(6) {
		case 0:
			h.Bools[key] = r.Intn(2) == 0
		case 1:
			h.Ints[key] = int32(r.Uint32()) >> uint(r.Intn(31))
		case 2:
			h.Floats[key] = float32(r.NormFloat64() * math.Pow(10, float64(r.Intn(60)-30)))
		case 3:
			h.Strings[key] = []string{"M 31", "Barnard's Star", "a/b / c", "x", "2020-01-02T03:04", "O'Neill's 'f'", "= T", "", "123456789012345678", "'", "''"}[r.Intn(11)]
		case 4:
			s := ""
			for n := r.Intn(200); len(s) < n; {
				s += []string{"a", "b", "'", " ", "/", "c=", "x&y"}[r.Intn(7)]
			}
			h.Strings[key] = strings.TrimRight(strings.TrimRight(s, " &"), " &") + "."
		case 5:
			h.Dates[key] = "2020-01-02T03:04:05"
		}
	}
}

func esc(s string) int { return len(strings.ReplaceAll(s, "'", "''")) }

func main() {
	kit.Main("C02", "one case = one random in-memory image (axes, special float values, header entries, exposure) saved to plain and gzip files, new and over existing larger/smaller files; non-trivial = distinct (axes, header size, file state) fully parsed by the independent reader and loaded back", func(k *kit.K) {
		n := k.N(500, 12000)
		for rep := 0; rep < n; rep++ {
			k.Case(fmt.Sprintf("roundtrip/%d", rep), func(c *kit.C) { one(c, rep) })
		}
	})
}

func one(c *kit.C, rep int) {
	r := c.Rng
	sizes := [][]int32{{1, 1}, {719, 1}, {720, 1}, {721, 1}, {64, 64}, {4096, 1}, {4097, 1}, {4095, 1}, {8192}, {33, 17, 3}, {5, 4, 3, 2}, {128, 65}, {100, 37}, {6, 6}, {1440}, {90, 8}}
	axes := sizes[r.Intn(len(sizes))]
	if r.Intn(6) == 0 {
		axes = []int32{int32(1 + r.Intn(150)), int32(1 + r.Intn(100))}
	}
	if rep == 17 || rep == 18 { // as wide as a camera chip
		axes = []int32{int32(4200 + r.Intn(600)), int32(251 + r.Intn(30))}
		if rep == 18 {
			axes = []int32{int32(700 + r.Intn(30)), int32(600 + r.Intn(60)), 3}
		}
	}
	f := makeImage(r, axes, r.Intn(3) == 0)
	nh := []int{0, 0, 3, 10, 24, 25, 26, 27, 28, 29, 30, 60}[r.Intn(12)]
	header(r, &f.Header, nh)
	want := map[string]interface{}{}
	for k, v := range f.Header.Bools {
		want[k] = v
	}
	for k, v := range f.Header.Ints {
		want[k] = v
	}
	for k, v := range f.Header.Floats {
		want[k] = v
	}
	for k, v := range f.Header.Strings {
		want[k] = v
	}
	if r.Intn(3) == 0 {
		f.Header.Strings["PROGRAM"] = "other"
	}
	if r.Intn(4) == 0 { // keys longer than a card allows cannot be restored, but must not spoil the file
		switch r.Intn(4) {
		case 0:
			f.Header.Strings["XLONGKEYWORD"] = "long"
		case 1:
			f.Header.Ints["YLONGKEYWORD-2"] = 77
		case 2:
			f.Header.Floats["ZLONGKEYWORD-OF-SOME-LENGTH"] = 1.5
		case 3:
			f.Header.Bools["WLONGKEYW"] = true
		}
	}
	orig := kit.Copy32(f.Data)
	d := c.Dir()
	defer c.K.CleanDir(d)
	for ni, name := range []string{"a.fits", "b.fits.gz", "c.FITS.GZIP", "d.fts", "op.fit"} {
		p := filepath.Join(d, name)
		state := "new"
		switch r.Intn(4) {
		case 1:
			state = "larger"
			os.WriteFile(p, bytes.Repeat([]byte("junk!"), len(f.Data)*4+3000), 0644)
		case 2:
			state = "smaller"
			os.WriteFile(p, []byte("junk"), 0644)
		case 3:
			state = "other image"
			makeImage(r, []int32{200, 100}, false).WriteFile(p)
		}
		if name == "op.fit" {
			ctx, _ := kit.Context()
			out, err := kit.Run1(ops.NewOpSave(p, ops.EMMinMax, 1), f, ctx)
			if err != nil {
				c.Fatal("save step: %v", err)
			}
			if out != f {
				c.Fail("save step returned another image")
			}
		} else if err := f.WriteFile(p); err != nil {
			c.Fatal("%s (%s): %v", name, state, err)
		}
		raw, err := os.ReadFile(p)
		if err != nil {
			c.Fatal("%s: %v", name, err)
		}
		if strings.Contains(strings.ToLower(name), "gz") {
			g, err := gzip.NewReader(bytes.NewReader(raw))
			if err == nil {
				raw, err = io.ReadAll(g)
			}
			if err != nil {
				c.Fatal("%s (%s): not a gzip file: %v", name, state, err)
			}
		}
		ps, err := ref.Parse(raw)
		if err != nil {
			c.Fatal("%s (%s): file does not conform: %v", name, state, err)
		}
		if ps.Bitpix != -32 || fmt.Sprint(ps.Axes) != fmt.Sprint(axes) {
			c.Fatal("%s: file has BITPIX %d axes %v, image axes %v", name, ps.Bitpix, ps.Axes, axes)
		}
		for k, n := range ps.Count {
			if n != 1 {
				c.Fail("%s: keyword %s occurs %d times", name, k, n)
			}
		}
		num := func(k string, def float64) float64 {
			if v, ok := ps.Val[k]; ok {
				f, err := strconv.ParseFloat(v, 64)
				if err != nil {
					c.Fail("%s: %s is %q", name, k, v)
				}
				return f
			}
			return def
		}
		if num("BZERO", 0) != 0 || num("BSCALE", 1) != 1 {
			c.Fail("%s: BZERO %v BSCALE %v", name, ps.Val["BZERO"], ps.Val["BSCALE"])
		}
		if e := num("EXPOSURE", num("EXPTIME", 0)); float32(e) != f.Exposure {
			c.Fail("%s: exposure %v in file, %v in memory", name, e, f.Exposure)
		}
		for i, o := range orig {
			bits := binary.BigEndian.Uint32(ps.Data[4*i:])
			wb := math.Float32bits(o)
			if o != o {
				wb = 0
			}
			if bits != wb {
				c.Fatal("%s (%s): pixel %d is saved as %08x, image has %08x", name, state, i, bits, wb)
			}
		}
		for k, v := range want {
			var ok bool
			switch x := v.(type) {
			case bool:
				ok = ps.Val[k] == map[bool]string{true: "T", false: "F"}[x] && !ps.IsStr[k]
			case int32:
				ok = ps.Val[k] == strconv.Itoa(int(x)) && !ps.IsStr[k]
			case float32:
				ok = float32(num(k, math.NaN())) == x && !ps.IsStr[k]
			case string:
				ok = ps.IsStr[k] && ps.Val[k] == strings.TrimRight(x, " ")
			}
			if !ok {
				c.Fail("%s: header entry %s is %v in memory, saved as %q", name, k, v, ps.Val[k])
			}
		}
		// and back
		g, err := fits.NewImageFromFile(p, 3, &kit.Log{})
		if err != nil {
			c.Fatal("%s (%s): loading back: %v", name, state, err)
		}
		if fmt.Sprint(g.Naxisn) != fmt.Sprint(axes) || len(g.Data) != len(orig) || g.Exposure != f.Exposure {
			c.Fatal("%s: loaded back axes %v, %d pixels, exposure %v; saved %v, %d, %v", name, g.Naxisn, len(g.Data), g.Exposure, axes, len(orig), f.Exposure)
		}
		for i, o := range orig {
			if o != o {
				o = 0
			}
			if g.Data[i] != o {
				c.Fatal("%s: pixel %d loads back as %v, saved %v", name, i, g.Data[i], o)
			}
		}
		for k, v := range want {
			var ok bool
			switch x := v.(type) {
			case bool:
				b, has := g.Header.Bools[k]
				ok = has && b == x
			case int32:
				b, has := g.Header.Ints[k]
				ok = has && b == x
			case float32:
				if b, has := g.Header.Floats[k]; has {
					ok = b == x
				} else if b, has := g.Header.Ints[k]; has {
					ok = float32(b) == x
				}
			case string:
				b, has := g.Header.Strings[k]
				ok = esc(x) > 18 || has && strings.TrimRight(b, " ") == strings.TrimRight(x, " ")
			}
			if !ok {
				c.Fail("%s: header entry %s=%v is not restored on loading", name, k, v)
			}
		}
		for i := range orig {
			if math.Float32bits(f.Data[i]) != math.Float32bits(orig[i]) {
				c.Fatal("%s: saving changed pixel %d in memory", name, i)
			}
		}
		// a second generation is a fixed point
		if ni == 0 {
			p2 := filepath.Join(d, "gen2.fits")
			if err := g.WriteFile(p2); err != nil {
				c.Fatal("second generation: %v", err)
			}
			raw2, _ := os.ReadFile(p2)
			ps2, err := ref.Parse(raw2)
			if err != nil {
				c.Fatal("second generation does not conform: %v", err)
			}
			if len(ps2.Data) != len(ps.Data) {
				c.Fatal("second generation has other data")
			}
		}
		c.Count("files", 1)
		c.Count("pixels_compared", len(orig))
		c.Count("header_entries_compared", len(want))
		c.Seen(axes, nh, state, name)
	}
	c.Sample("axes %v header entries %d exposure %v", axes, nh, f.Exposure)
}
