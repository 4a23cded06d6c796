// C12: monitor for path containment: jobs with hostile and ordinary file names
// and patterns run in a scratch tree with decoy files outside; inotify reports
// any opening of a decoy, and the images loaded are matched with their files.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// watch counts how often files in some directories are opened
type watch struct {
	fd   int
	dirs map[int32]string
}

func newWatch(c *kit.C, dirs ...string) *watch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK)
	if err != nil {
		c.Fatal("VK: inotify: %v", err)
	}
	w := &watch{fd: fd, dirs: map[int32]string{}}
	for _, d := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, d, syscall.IN_OPEN)
		if err != nil {
			c.Fatal("VK: inotify: %v", err)
		}
		w.dirs[int32(wd)] = d
	}
	return w
}

// opened returns the files opened since the last call
func (w *watch) opened() (o []string) {
	buf := make([]byte, 65536)
	for {
		n, err := syscall.Read(w.fd, buf)
		if n <= 0 || err != nil {
			return
		}
		for p := 0; p+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[p]))
			name := strings.TrimRight(string(buf[p+syscall.SizeofInotifyEvent:p+syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
			if name != "" && e.Mask&syscall.IN_ISDIR == 0 {
				o = append(o, filepath.Join(w.dirs[e.Wd], name))
			}
			p += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
}

func (w *watch) close() { syscall.Close(w.fd) }

// tree is a working directory with files inside, and decoys outside
type tree struct {
	root   string
	inside map[string]float32 // pixel value by name relative to the working directory
	w      *watch
	old    string
}

var next float32 = 1

func put(c *kit.C, name string) float32 {
	next++
	d := make([]float32, 64)
	for i := range d {
		d[i] = next
	}
	d[63]++
	os.MkdirAll(filepath.Dir(name), 0755)
	f := kit.Img(0, 8, 8, d)
	if err := f.WriteFile(name); err != nil {
		c.Fatal("VK: %v", err)
	}
	return next
}

var insideNames = []string{"a1.fits", "a2.fits", "a10.fits", "b.fit", "c.fits.gz", "dark.fits", "flat.fits", "sub/a1.fits", "sub/x.fits",
	"sub/deep/y.fits", "sub2/a3.fits", "sub2/a1.fits", "sub3/a1.fits", "outside.fits", "etc/secret.fits", ".hidden.fits", "sp ace.fits", "br[a].fits", "q?.fits", "st*r.fits", "Up.fits",
	"tmp/t.fits", "z1.d/z.fits", "1.fits", "%rgb.fits", "~/home.fits", "...fits", "a..b.fits", "dir..x/k.fits"}

var outsideNames = []string{"outside.fits", "secret.fits", "a1.fits", "etc/secret.fits", "work.fits", "dark.fits", "work2/a1.fits", "sub/x.fits"}

func newTree(c *kit.C) *tree {
	root, err := filepath.Abs(c.Dir())
	if err != nil {
		c.Fatal("VK: %v", err)
	}
	t := &tree{root: root, inside: map[string]float32{}}
	for _, n := range outsideNames {
		put(c, filepath.Join(root, n))
	}
	for _, n := range insideNames {
		t.inside[n] = put(c, filepath.Join(root, "work", n))
	}
	t.old, _ = os.Getwd()
	if err := os.Chdir(filepath.Join(root, "work")); err != nil {
		c.Fatal("VK: %v", err)
	}
	t.w = newWatch(c, root, filepath.Join(root, "etc"), filepath.Join(root, "work2"), filepath.Join(root, "sub"))
	return t
}

func (t *tree) close() {
	os.Chdir(t.old)
	t.w.close()
}

// check that no decoy was opened and no image stems from one
func (t *tree) check(c *kit.C, what string, fs []*fits.Image) {
	if o := t.w.opened(); len(o) > 0 {
		c.Fatal("%s: file outside the working directory was opened: %q", what, o)
	}
	in := map[float32]bool{}
	for _, v := range t.inside {
		in[v] = true
	}
	for _, f := range fs {
		if f != nil && len(f.Data) == 64 && !in[f.Data[0]] {
			c.Fatal("%s: image %s has the content of a file outside the working directory", what, f.FileName)
		}
	}
	c.Count("jobs watched", 1)
}

func main() {
	kit.Main("C12", "one evaluation = one scratch tree in which jobs named files; distinct = operator x path or pattern", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(25, 400); i++ {
			k.Case(fmt.Sprintf("outside/%d", i), func(c *kit.C) { outside(c, i) })
			k.Case(fmt.Sprintf("inside/%d", i), func(c *kit.C) { inside(c, i) })
			k.Case(fmt.Sprintf("many/%d", i), func(c *kit.C) { many(c, i) })
		}
		k.Case("watch", func(c *kit.C) { // the monitor itself sees an opening
			t := newTree(c)
			defer t.close()
			os.ReadFile("../outside.fits")
			if o := t.w.opened(); len(o) != 1 {
				c.Fatal("VK: opening is not seen: %q", o)
			}
		})
	})
}

// a path to a decoy
func hostile(c *kit.C, t *tree) string {
	r := c.Rng
	n := outsideNames[r.Intn(len(outsideNames))]
	if r.Intn(3) == 0 { // absolute
		p := filepath.Join(t.root, n)
		switch r.Intn(5) {
		case 0:
			p = "/" + p
		case 1:
			p = t.root + "/./" + n
		case 2:
			p = t.root + "/work/../" + n
		case 3:
			p = t.root + "//" + n
		}
		return p
	}
	pre := ""
	for x := r.Intn(4); x > 0; x-- {
		switch r.Intn(5) {
		case 0:
			pre += "./"
		case 1:
			pre += "sub/../"
		case 2:
			pre += "sub/deep/../../"
		case 3:
			pre += ".//"
		case 4:
			pre += "dir..x/../"
		}
	}
	up := []string{"../", "..//", ".././", "../work/../", "sub/../../", "sub/deep/../../../", "./sub/./../../", "../work/sub/../../", "../work2/../"}[r.Intn(9)]
	return pre + up + n
}

// jobs that load one file by name, in every way there is
func loaders(name string) map[string]func() ([]ops.Promise, *ops.Context, error) {
	frame := func() []ops.Promise {
		return kit.Proms([]*fits.Image{kit.Img(5, 8, 8, make([]float32, 64)), kit.Img(6, 8, 8, make([]float32, 64))})
	}
	js, _ := json.Marshal(name)
	job := func(format string) (*ops.OpSequence, error) {
		var s ops.OpSequence
		err := json.Unmarshal([]byte(strings.Replace(format, "$", string(js), -1)), &s)
		return &s, err
	}
	run := func(op ops.Operator, ins []ops.Promise) ([]ops.Promise, *ops.Context, error) {
		ctx, _ := kit.Context()
		outs, err := op.MakePromises(ins, ctx)
		return outs, ctx, err
	}
	type ret = func() ([]ops.Promise, *ops.Context, error)
	fromJob := func(format string, ins []ops.Promise) ret {
		return func() ([]ops.Promise, *ops.Context, error) {
			s, err := job(format)
			if err != nil {
				return nil, nil, err
			}
			return run(s, ins)
		}
	}
	sd := func() *pre.OpStarDetect { return pre.NewOpStarDetect(4, 10, 0, 1.4, "") }
	return map[string]ret{
		"load":       func() ([]ops.Promise, *ops.Context, error) { return run(ops.NewOpLoad(3, name), nil) },
		"load job":   fromJob(`{"type":"seq","steps":[{"type":"load","id":3,"fileName":$}]}`, nil),
		"nested job": fromJob(`{"type":"seq","steps":[{"type":"seq","steps":[{"type":"load","fileName":$},{"type":"bin","n":1}]}]}`, nil),
		"dark":       func() ([]ops.Promise, *ops.Context, error) { return run(pre.NewOpCalibrate(name, ""), frame()) },
		"flat":       func() ([]ops.Promise, *ops.Context, error) { return run(pre.NewOpCalibrate("", name), frame()) },
		"darkflat": func() ([]ops.Promise, *ops.Context, error) {
			return run(pre.NewOpCalibrate("dark.fits", name), frame())
		},
		"dark job": fromJob(`{"type":"seq","steps":[{"type":"calibrate","dark":$,"flat":"flat.fits"}]}`, frame()),
		"reference": func() ([]ops.Promise, *ops.Context, error) {
			return run(ref.NewOpSelectReference(ref.SRAlign, name, sd()), frame())
		},
		"histoRef": func() ([]ops.Promise, *ops.Context, error) {
			return run(ref.NewOpSelectReference(ref.SRHisto, name, sd()), frame())
		},
		"reference job": fromJob(`{"type":"seq","steps":[{"type":"selectRef","target":0,"mode":$}]}`, frame()),
	}
}

func names(m map[string]func() ([]ops.Promise, *ops.Context, error)) (o []string) {
	for n := range m {
		o = append(o, n)
	}
	sort.Strings(o)
	return
}

func outside(c *kit.C, i int) {
	t := newTree(c)
	defer t.close()
	for x := 0; x < 12; x++ {
		p := hostile(c, t)
		ls := loaders(p)
		for _, n := range names(ls) {
			what := fmt.Sprintf("%s of %q", n, strings.Replace(p, t.root, "ROOT", 1))
			ps, _, err := ls[n]()
			var fs []*fits.Image
			var errs []error
			if err != nil {
				errs = append(errs, err)
			}
			for _, q := range ps {
				f, err := q()
				if err != nil {
					errs = append(errs, err)
				}
				fs = append(fs, f)
			}
			t.check(c, what, fs)
			if len(errs) == 0 || (len(ps) > 0 && len(errs) < len(ps)) {
				c.Fatal("%s: no error, %d errors for %d images", what, len(errs), len(ps))
			}
			c.Seen(n, strings.Replace(p, t.root, "ROOT", 1))
		}
		// the same path as a pattern: skipped, and as nothing else matches, an error
		for _, pat := range []string{p, path.Dir(p) + "/*.fits", path.Dir(p) + "/[a-z]*.fit?", strings.Replace(p, "s", "?", 1)} {
			ctx, _ := kit.Context()
			ps, err := ops.NewOpLoadMany([]string{pat}).MakePromises(nil, ctx)
			if err == nil {
				fs, _ := ops.MaterializeAll(ps, 2, false)
				t.check(c, fmt.Sprintf("pattern %q", pat), fs)
				if len(ps) > 0 && !strings.Contains(pat, "?") {
					c.Fatal("pattern %q outside the working directory gives %d images", pat, len(ps))
				}
			}
			t.check(c, fmt.Sprintf("pattern %q", pat), nil)
		}
	}
	c.Sample("hostile path like %q", strings.Replace(hostile(c, t), t.root, "ROOT", 1))
}

// names inside the tree load the right file
func inside(c *kit.C, i int) {
	t := newTree(c)
	defer t.close()
	for _, n := range insideNames {
		p := n
		switch c.Rng.Intn(4) {
		case 0:
			p = "./" + p
		case 1:
			p = strings.Replace(p, "/", "//", -1)
		}
		ctx, _ := kit.Context()
		ps, err := ops.NewOpLoad(i, p).MakePromises(nil, ctx)
		var f *fits.Image
		if err == nil && len(ps) == 1 {
			f, err = ps[0]()
		}
		t.check(c, "load of "+p, []*fits.Image{f})
		if strings.Contains(p, "..") && err != nil {
			c.Count("names with two dots refused", 1)
			continue
		}
		if err != nil || f == nil {
			c.Fatal("load of %q: %v", p, err)
		}
		if f.Data[0] != t.inside[n] || f.ID != i {
			c.Fatal("load of %q as %d: got content %v with id %d, want content %v", p, i, f.Data[0], f.ID, t.inside[n])
		}
		c.Seen("inside", p)
	}
	// dark frames by name
	for _, n := range []string{"dark.fits", "./sub/x.fits", "sub/deep/y.fits"} {
		ctx, _ := kit.Context()
		f, err := kit.Run1(pre.NewOpCalibrate(n, ""), kit.Img(1, 8, 8, make([]float32, 64)), ctx)
		if err != nil {
			c.Fatal("dark %q: %v", n, err)
		}
		if want := -t.inside[path.Clean(n)]; f.Data[0] != want {
			c.Fatal("dark %q: result %v, want %v", n, f.Data[0], want)
		}
		t.check(c, "dark "+n, nil)
	}
	for _, n := range []string{"missing.fits", "sub/missing.fits", "sub", ".", ""} {
		ctx, _ := kit.Context()
		ps, err := ops.NewOpLoad(1, n).MakePromises(nil, ctx)
		if err == nil {
			_, err = ps[0]()
		}
		if err == nil {
			c.Fatal("load of %q: no error", n)
		}
	}
}

// own expansion of a pattern, component by component
func expand(t *tree, pat string) (o []string) {
	for n := range t.inside {
		a, b := strings.Split(n, "/"), strings.Split(path.Clean(pat), "/")
		ok := len(a) == len(b)
		for x := 0; ok && x < len(a); x++ {
			ok, _ = path.Match(b[x], a[x])
		}
		if ok {
			o = append(o, n)
		}
	}
	sort.Strings(o)
	return
}

// lists of patterns load every allowed match once, in order, with consecutive ids
func many(c *kit.C, i int) {
	r := c.Rng
	t := newTree(c)
	defer t.close()
	good := []string{"*.fits", "a*.fits", "a?.fits", "sub/*.fits", "*/a*.fits", "sub*/*.fits", "*/*/*.fits", "[a-c]*.fi*", "*.gz", "nothing*.fits", "a1.fits",
		"sub/deep/y.fits", "./*.fits", "br\\[a\\].fits", "q\\?.fits", "[!a]*.fits", "*/a1.fits", "sub/", "*.d/*", "1.fits", "st\\*r.fits", ".*.fits"}
	if i%12 == 1 { // a long night
		for n := 0; n < 150; n++ {
			name := fmt.Sprintf("night/light%d.fits", n)
			t.inside[name] = put(c, filepath.Join(t.root, "work", name))
		}
		good = append(good, "night/*.fits", "night/l*.fits", "*/light*.fits")
	}
	for x := 0; x < 10; x++ {
		var pats []string
		var want []string
		hostileToo := false
		for y := 1 + r.Intn(4); y > 0; y-- {
			if r.Intn(4) == 0 {
				h := []string{"../*.fits", "../outside.fits", "sub/../../*.fits", "*/../../[a-z]*.fits", t.root + "/*.fits", "../*/*.fits", "[.][.]/*.fits", ".[.]/*.fits",
					"../work/*.fits", t.root + "/work/a1.fits", "?./outside.fits", "..", "../", "/"}[r.Intn(14)]
				pats = append(pats, h)
				hostileToo = true
				continue
			}
			p := good[r.Intn(len(good))]
			if p == "sub/" {
				continue
			}
			pats = append(pats, p)
			for _, m := range expand(t, p) {
				want = append(want, m)
			}
		}
		what := strings.Replace(fmt.Sprintf("patterns %q", pats), t.root, "ROOT", -1)
		ctx, _ := kit.Context()
		var op ops.Operator = ops.NewOpLoadMany(pats)
		if r.Intn(2) == 0 { // as a job
			b, err := json.Marshal(op)
			if err != nil {
				c.Fatal("%s: %v", what, err)
			}
			seq := ops.NewOpSequence()
			if err := json.Unmarshal([]byte(`{"type":"seq","steps":[`+string(b)+`]}`), seq); err != nil {
				c.Fatal("%s: %v", what, err)
			}
			op = seq
		}
		ps, err := op.MakePromises(nil, ctx)
		var fs []*fits.Image
		if err == nil {
			fs, err = ops.MaterializeAll(ps, 1+r.Intn(4), false)
		}
		t.check(c, what, fs)
		// names with two dots may or may not be allowed
		strip := func(l []string) (o []string) {
			for _, n := range l {
				if !strings.Contains(n, "..") {
					o = append(o, n)
				}
			}
			return
		}
		var got []string
		for j, f := range fs {
			name := ""
			for n, v := range t.inside {
				if v == f.Data[0] {
					name = n
				}
			}
			if path.Clean(f.FileName) != name {
				c.Fatal("%s: image of %q has the content of %q", what, f.FileName, name)
			}
			if f.ID != j {
				c.Fatal("%s: image %d from %q has id %d", what, j, name, f.ID)
			}
			got = append(got, name)
		}
		got, want = strip(got), strip(want)
		if len(want) == 0 {
			if err == nil && len(got) > 0 {
				c.Fatal("%s: loads %q", what, got)
			}
			if err == nil && len(fs) == 0 {
				c.Fatal("%s: no error and no images", what)
			}
			continue
		}
		if err != nil {
			c.Fatal("%s: %v", what, err)
		}
		if strings.Join(got, "|") != strings.Join(want, "|") {
			c.Fatal("%s: loads %q, want %q", what, got, want)
		}
		c.Count("matches loaded", len(want))
		c.Seen("many", what)
		c.Sample("%s (hostile %v) load %d files", what, hostileToo, len(want))
	}
	ctx, _ := kit.Context()
	for _, p := range [][]string{{"["}, {"a1.fits", "[z-a"}, {"sub/[", "*.fits"}, nil, {}, {"zzz*"}} {
		if ps, err := ops.NewOpLoadMany(p).MakePromises(nil, ctx); err == nil {
			c.Fatal("patterns %q: no error, %d images", p, len(ps))
		}
	}
}
