// C01: FITS decoding monitor. An independent encoder produces files in every
// sample format and spelling; the real reader decodes them through readers that
// split the stream in hostile ways; every pixel and header value is compared.
package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	ref "github.com/mlnoga/nightlight/internal/zzverif/fitsref"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// splitReader delivers data in pieces chosen by mode.
type splitReader struct {
	b    []byte
	r    *rand.Rand
	mode int
	n    int // reads so far
	part int // reads that ended inside a value
	pos  int
}

func (s *splitReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch s.mode % 8 {
	case 0: // as much as fits
	case 1:
		n = 1
	case 2:
		n = 1 + s.r.Intn(7)
	case 3:
		n = 1 + s.r.Intn(5000)
	case 4:
		n = 4095
	case 5:
		if s.r.Intn(3) == 0 {
			n = 3
		}
	case 6:
		n = (n + 1) / 2
	case 7:
		if s.r.Intn(4) == 0 { // legal: nothing and no error
			return 0, nil
		}
		n = 1 + s.r.Intn(100)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	s.pos += n
	s.n++
	if s.pos%8 != 0 {
		s.part++
	}
	if len(s.b) == 0 && s.mode >= 8 {
		return n, io.EOF // data together with end of file
	}
	return n, nil
}

func spellFloat(r *rand.Rand, v float32) string {
	f := float64(v)
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		switch r.Intn(6) {
		case 0:
			return strconv.FormatInt(int64(f), 10)
		case 1:
			return strconv.FormatInt(int64(f), 10) + "."
		case 2:
			return strconv.FormatFloat(f, 'f', 1, 64)
		case 3:
			if f >= 0 {
				return "+" + strconv.FormatInt(int64(f), 10)
			}
		}
	}
	switch r.Intn(6) {
	case 0:
		return strconv.FormatFloat(f, 'E', -1, 64)
	case 1:
		return strings.Replace(strconv.FormatFloat(f, 'E', -1, 64), "E", []string{"D", "d", "e"}[r.Intn(3)], 1)
	case 2:
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 3:
		return strings.Replace(strconv.FormatFloat(f, 'E', -1, 64), "E+", "E", 1)
	case 4:
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if strings.HasPrefix(s, "0.") {
			return s[1:]
		}
		return s
	}
	return strconv.FormatFloat(f, 'G', -1, 32)
}

// card writes a keyword value card in free or fixed format.
func card(r *rand.Rand, k, v string) string {
	s := ""
	switch r.Intn(3) {
	case 0:
		s = fmt.Sprintf("%-8s= %20s", k, v)
	case 1:
		s = fmt.Sprintf("%-8s= %s", k, v)
	case 2:
		s = fmt.Sprintf("%-8s=   %s ", k, v)
	}
	switch r.Intn(4) {
	case 0:
		if len(s) < 60 {
			s += " / some comment"
		}
	case 1:
		if len(s) < 60 {
			s += " / it's 5/7 = [s]"
		}
	}
	if len(s) > 80 {
		s = strings.TrimRight(s, " ")
	}
	return ref.Card(s)
}

func strLit(r *rand.Rand, v string) string {
	return fmt.Sprintf("'%-8s'", strings.ReplaceAll(v, "'", "''"))
}

type want struct {
	nums  map[string]float64
	strs  map[string]string
	bools map[string]bool
	expo  float64

	comments, history int
}

func check(c *kit.C, im *fits.Image, w want, axes []int, exp []float32, tol []float64, what string) {
	if len(im.Naxisn) != len(axes) {
		c.Fatal("%s: axes %v, header has %v", what, im.Naxisn, axes)
	}
	total := 1
	for i, a := range axes {
		if int(im.Naxisn[i]) != a {
			c.Fatal("%s: axes %v, header has %v", what, im.Naxisn, axes)
		}
		total *= a
	}
	if int(im.Pixels) != total {
		c.Fatal("%s: Pixels %d, want %d", what, im.Pixels, total)
	}
	if !kit.Near(im.Exposure, float32(w.expo), 1e-30, 1e-6) {
		c.Fail("%s: exposure %v, header has %v", what, im.Exposure, w.expo)
	}
	for k, v := range w.nums {
		got := math.NaN()
		if i, ok := im.Header.Ints[k]; ok {
			got = float64(i)
			if got != v {
				c.Fail("%s: header integer %s=%v, file has %v", what, k, got, v)
			}
		} else if f, ok := im.Header.Floats[k]; ok {
			got = float64(f)
		}
		if !(math.Abs(got-v) <= 1e-6*math.Abs(v)) {
			c.Fail("%s: header number %s=%v, file has %v", what, k, got, v)
		}
	}
	for k, v := range w.strs {
		got, ok := im.Header.Strings[k]
		if !ok || strings.TrimRight(got, " ") != v {
			c.Fail("%s: header string %s=%q (present %v), file has %q", what, k, got, ok, v)
		}
	}
	for k, v := range w.bools {
		if got, ok := im.Header.Bools[k]; !ok || got != v {
			c.Fail("%s: header bool %s=%v (present %v), file has %v", what, k, got, ok, v)
		}
	}
	if len(im.Header.Comments) != w.comments || len(im.Header.History) != w.history {
		c.Fail("%s: %d comments and %d history entries, file has %d and %d", what, len(im.Header.Comments), len(im.Header.History), w.comments, w.history)
	}
	if exp == nil {
		return
	}
	if len(im.Data) != total {
		c.Fatal("%s: %d pixels in data, want %d", what, len(im.Data), total)
	}
	bad := 0
	for i, e := range exp {
		if !kit.Near(im.Data[i], e, tol[i]+1e-37, 4e-7) {
			c.Fail("%s: pixel %d is %v, file has %v", what, i, im.Data[i], e)
			if bad++; bad > 2 {
				break
			}
		}
	}
	// true pixel value = Bzero + Bscale*Data: nothing may be applied twice later
	if im.Bzero != 0 || im.Bscale != 1 {
		c.Fail("%s: Bzero/Bscale %v/%v after they were applied", what, im.Bzero, im.Bscale)
	}
	kit.CheckStats(c, im, what)
}

func gz(b []byte, r *rand.Rand) []byte {
	var o bytes.Buffer
	if r.Intn(3) == 0 && len(b) > 100 { // multi-member stream
		n := r.Intn(len(b))
		for _, p := range [][]byte{b[:n], b[n:]} {
			g := gzip.NewWriter(&o)
			g.Write(p)
			g.Close()
		}
		return o.Bytes()
	}
	g, _ := gzip.NewWriterLevel(&o, r.Intn(10))
	g.Write(b)
	g.Close()
	return o.Bytes()
}

func main() {
	kit.Main("C01", "one case = one generated FITS file (sample format, axes, BZERO/BSCALE, header spelling) decoded through several stream splittings and from disk plain and gzip; non-trivial = distinct (bitpix, axes, offset/scale, splitting) with a fully compared pixel array", func(k *kit.K) {
		bps := []int{8, 16, 32, 64, -32, -64}
		sizes := [][]int{{1, 1}, {3, 1}, {7, 5}, {64, 32}, {128, 64}, {64, 64}, {127, 129}, {4096, 1}, {4097, 1}, {8192}, {16384}, {16385}, {2048, 9}, {33, 17, 3}, {5, 4, 3, 2}, {360, 2}, {720, 1}, {719, 1}}
		n := k.N(120, 3000)
		for rep := 0; rep < n; rep++ {
			for _, bp := range bps {
				k.Case(fmt.Sprintf("decode/bp%d/%d", bp, rep), func(c *kit.C) { one(c, bp, sizes, rep) })
			}
		}
	})
}

func one(c *kit.C, bp int, sizes [][]int, rep int) {
	r := c.Rng
	axes := sizes[(rep*5+r.Intn(4))%len(sizes)]
	if rep%12 == 11 {
		axes = []int{200 + r.Intn(200), 100 + r.Intn(200)}
	}
	if rep == 17 { // as wide as a camera chip
		axes = []int{4200 + r.Intn(600), 251 + r.Intn(30)}
	}
	total := 1
	for _, a := range axes {
		total *= a
	}
	// offset and scale
	bzero, bscale := float32(0), float32(1)
	hasZ, hasS := false, false
	switch r.Intn(7) {
	case 0:
	case 1: // unsigned integer conventions
		hasZ, hasS = true, true
		switch bp {
		case 8:
			bzero = -128
		case 16:
			bzero = 32768
		case 32:
			bzero = 2147483648
		case 64:
			bzero = 9223372036854775808
		}
	case 2:
		hasZ, hasS, bzero, bscale = true, true, 100.5, 0.125
	case 3:
		hasS, bscale = true, 2
	case 4:
		hasZ, bzero = true, -17
	case 5:
		hasZ, hasS, bzero, bscale = true, true, 1.5e-3, -1.25e-5
	case 6:
		hasZ, hasS, bzero, bscale = true, true, float32(r.NormFloat64()*1000), float32(r.Float64()*3+0.01)
	}
	var data []byte
	exp := make([]float32, total)
	tol := make([]float64, total)
	for i := range exp {
		var iv int64
		var fv float64
		edge := r.Intn(8) == 0
		switch bp {
		case 8:
			iv = int64(r.Intn(256))
			if edge {
				iv = []int64{0, 255, 127, 128}[r.Intn(4)]
			}
		case 16:
			iv = int64(int16(r.Intn(65536)))
			if edge {
				iv = []int64{-32768, 32767, 0, -1, 255, 256, -256}[r.Intn(7)]
			}
		case 32:
			iv = int64(int32(r.Uint32()))
			if edge {
				iv = []int64{math.MinInt32, math.MaxInt32, 0, -1, 65536, 0x00ff00ff}[r.Intn(6)]
			}
		case 64:
			iv = int64(r.Uint64()) >> uint(r.Intn(60))
			if edge {
				iv = []int64{math.MinInt64, math.MaxInt64, 0, -1, 1 << 40, 0x00ff00ff00ff00ff}[r.Intn(6)]
			}
		case -32:
			fv = float64(float32(r.NormFloat64() * math.Pow(10, float64(r.Intn(8)-3))))
			if edge {
				fv = float64([]float32{0, 1, 65535, -1e-20, 3e30, 0.1}[r.Intn(6)])
			}
		case -64:
			fv = r.NormFloat64() * math.Pow(10, float64(r.Intn(8)-3))
			if edge {
				fv = []float64{0, 1, 65535, -1e-20, 3e30, 0.1, math.Pi}[r.Intn(7)]
			}
		}
		data = ref.EncodeValue(data, bp, iv, fv)
		st := fv
		if bp > 0 {
			st = float64(iv)
		}
		e := float64(bzero) + float64(bscale)*st
		exp[i] = float32(e)
		// float32 rounding of the two terms: cancellation between them is legitimate
		tol[i] = 4e-7 * (math.Abs(float64(bzero)) + math.Abs(float64(bscale)*st))
		if bzero == 0 {
			tol[i] = 0
		}
	}

	w := want{nums: map[string]float64{}, strs: map[string]string{}, bools: map[string]bool{}}
	cards := []string{ref.KV("SIMPLE", "T"), ref.KV("BITPIX", strconv.Itoa(bp)), ref.KV("NAXIS", strconv.Itoa(len(axes)))}
	for i, a := range axes {
		cards = append(cards, ref.KV(fmt.Sprintf("NAXIS%d", i+1), strconv.Itoa(a)))
	}
	var more []string
	if hasZ {
		s := spellFloat(r, bzero)
		more = append(more, card(r, "BZERO", s))
	}
	if hasS {
		more = append(more, card(r, "BSCALE", spellFloat(r, bscale)))
	}
	ex := float32(0)
	switch r.Intn(4) {
	case 0:
	case 1:
		ex = float32(r.Intn(1000))
		more = append(more, card(r, "EXPOSURE", spellFloat(r, ex)))
		if r.Intn(2) == 0 { // some cameras write both, and EXPOSURE counts
			more = append(more, card(r, "EXPTIME", spellFloat(r, ex+5)))
			w.nums["EXPTIME"] = float64(ex + 5)
		}
	case 2:
		ex = float32(r.Intn(100000)) / 1000
		more = append(more, card(r, "EXPTIME", spellFloat(r, ex)))
	case 3:
		ex = 1e-5 * float32(1+r.Intn(100))
		more = append(more, card(r, "EXPTIME", spellFloat(r, ex)))
	}
	w.expo = float64(ex)
	extra := r.Intn(6)
	if r.Intn(5) == 0 {
		extra = 30 + r.Intn(50)
	}
	for i := 0; i < extra; i++ {
		key := fmt.Sprintf("%c%s%d", 'A'+rune(r.Intn(26)), []string{"KEY", "K-", "Q_", "V"}[r.Intn(4)], i)
		switch r.Intn(7) {
		case 0:
			v := r.Intn(2) == 0
			more = append(more, card(r, key, map[bool]string{true: "T", false: "F"}[v]))
			w.bools[key] = v
		case 1:
			v := int32(r.Uint32()) >> uint(r.Intn(31))
			more = append(more, card(r, key, strconv.Itoa(int(v))))
			w.nums[key] = float64(v)
		case 2:
			v := float32(r.NormFloat64() * math.Pow(10, float64(r.Intn(20)-10)))
			more = append(more, card(r, key, spellFloat(r, v)))
			w.nums[key] = float64(v)
		case 3:
			v := float64(int64(3000000000) + r.Int63n(1<<40))
			more = append(more, card(r, key, strconv.FormatInt(int64(v), 10)))
			w.nums[key] = v
		case 4:
			v := []string{"M 31", "Barnard's Star", "a/b / c", "''", "x", "2020-01-02T03:04:05.678", "O'Neill's 'filter'", "= T", ""}[r.Intn(9)]
			more = append(more, card(r, key, strLit(r, v)))
			w.strs[key] = strings.TrimRight(v, " ")
		case 5:
			w.comments++
			more = append(more, ref.Card("COMMENT some comment with = 'signs' / and "+key))
		case 6:
			w.history++
			more = append(more, ref.Card("HISTORY processed with "+key))
		}
	}
	r.Shuffle(len(more), func(i, j int) { more[i], more[j] = more[j], more[i] })
	cards = append(cards, more...)
	if r.Intn(4) == 0 { // END as last card of a block, or alone in a block
		for len(cards)%36 != []int{35, 0}[r.Intn(1+rep%2)] {
			cards = append(cards, ref.Card(""))
		}
	}
	file := ref.Build(cards, data, r.Intn(5) != 0)
	splits := []int{0, 8}
	for len(splits) < 5 {
		splits = append(splits, r.Intn(16))
	}
	for _, m := range splits {
		if total > 20000 && m%8 == 1 && bp < -32 {
			continue
		}
		s := &splitReader{b: file, r: r, mode: m}
		im := fits.NewImage()
		lg := &kit.Log{}
		if err := im.Read(s, true, lg); err != nil {
			c.Fatal("split %d: reading failed: %v", m, err)
		}
		check(c, im, w, axes, exp, tol, fmt.Sprintf("split %d", m))
		c.Count("reads", s.n)
		c.Count("reads_ending_inside_a_value", s.part)
		c.Count("pixels_compared", total)
		c.Seen(bp, axes, bzero, bscale, m)
		if c.Bad() {
			return
		}
	}
	c.Sample("axes %v bzero %v bscale %v exposure %v, %d cards, splittings %v", axes, bzero, bscale, ex, len(cards), splits)
	// from disk
	d := c.Dir()
	defer c.K.CleanDir(d)
	for _, name := range []string{"a.fits", "b.fits.gz", "c.FIT.gzip", "d.fts", "e.FITS.GZ"} {
		b := file
		if strings.Contains(strings.ToLower(name), "gz") {
			b = gz(file, r)
		}
		p := filepath.Join(d, name)
		if err := os.WriteFile(p, b, 0644); err != nil {
			panic(err)
		}
		id := r.Intn(1000)
		im, err := fits.NewImageFromFile(p, id, &kit.Log{})
		if err != nil {
			c.Fatal("%s: %v", name, err)
		}
		if im.ID != id || im.FileName != p {
			c.Fail("%s: id %d name %q", name, im.ID, im.FileName)
		}
		check(c, im, w, axes, exp, tol, name)
		im, err = fits.NewImageMasterDataFromFile(p, id, &kit.Log{})
		if err != nil {
			c.Fatal("%s metadata: %v", name, err)
		}
		check(c, im, w, axes, nil, tol, name+" metadata")
	}
	c.Count("files", 1)
}
