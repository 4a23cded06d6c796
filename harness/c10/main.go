// C10: monitor for whole pipelines under concurrency: the same job on the same
// files is run with different numbers of threads and processors and with random
// delays; the race detector watches memory, and every result file of every run
// is compared byte by byte with that of the run on a single thread.
package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/zzverif/jobs"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// run executes the job and returns the contents of the files it wrote
func run(rc jobs.Recipe, out string, threads, procs int) (map[string][]byte, error) {
	os.MkdirAll(out, 0755)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	ctx, _ := kit.Context()
	ctx.MaxThreads, ctx.StackMemoryMB = threads, rc.MemMB
	ps, err := rc.Build(out).MakePromises(nil, ctx)
	if err == nil {
		_, err = ops.MaterializeAll(ps, ctx.MaxThreads, true)
	}
	files := map[string][]byte{}
	ns, _ := filepath.Glob(out + "/*")
	for _, n := range ns {
		b, _ := os.ReadFile(n)
		if strings.HasSuffix(n, ".html") { // rows in any order
			ls := strings.Split(string(b), "\n")
			sort.Strings(ls)
			b = []byte(strings.Join(ls, "\n"))
		}
		files[filepath.Base(n)] = b
	}
	return files, err
}

func main() {
	kit.Main("C10", "one evaluation = one job run several times with different concurrency; distinct = job x threads x processors x results", func(k *kit.K) {
		kit.ExactStats()
		race := os.Getenv("VK_PHASE") == "race"
		n := k.N(20, 1200)
		if race {
			n = k.N(16, 500)
		}
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("job/%d", i), func(c *kit.C) { job(c, i) })
		}
	})
}

func job(c *kit.C, i int) {
	r := c.Rng
	w, h := 2*(60+r.Intn(30)), 2*(50+r.Intn(30))
	frames := 3 + r.Intn(10)
	if i%8 == 5 {
		frames = 20 + r.Intn(10)
	}
	s := jobs.Shoot(c, filepath.Base(c.Dir()), "in", frames, w, h)
	var rc jobs.Recipe
	switch i % 4 {
	case 3:
		if s.N < 4 {
			s = jobs.Shoot(c, filepath.Base(c.Dir()), "in4", 4, w, h)
		}
		rc = jobs.Colour(r, s)
	case 2:
		rc = jobs.Stretch(r, s)
	default:
		rc = jobs.Stack(r, s, r.Intn(2) == 0)
	}
	base := filepath.Base(c.Dir())
	want, werr := run(rc, base+"/o0", 1, 1)
	for x, cfg := range [][2]int{{2, 2}, {8, 8}, {3 + r.Intn(14), 1 + r.Intn(8)}} {
		got, err := run(rc, fmt.Sprintf("%s/o%d", base, x+1), cfg[0], cfg[1])
		what := fmt.Sprintf("%s, %d threads, %d processors", rc.Name, cfg[0], cfg[1])
		c.Count("runs", 1)
		if (err != nil) != (werr != nil) && rc.Same {
			c.Fatal("%s: error %v, but %v on one thread", what, err, werr)
		}
		if err != nil {
			c.Count("runs ending in an error", 1)
			c.Seen(what, "error")
			continue
		}
		c.Count("files", len(got))
		if !rc.Same {
			c.Seen(what, len(got))
			continue
		}
		for n := range want {
			if _, ok := got[n]; !ok {
				c.Fatal("%s: file %s is missing", what, n)
			}
		}
		for n, b := range got {
			if !bytes.Equal(b, want[n]) {
				c.Fatal("%s: file %s of %d bytes differs from that of %d bytes written on one thread, first in byte %d", what, n, len(b), len(want[n]), diff(b, want[n]))
			}
		}
		c.Count("files identical", len(got))
		c.Seen(rc.Name, cfg, crc32.ChecksumIEEE(got["out.fits"]))
	}
	c.Sample("%s: %d files, error %v", rc.Name, len(want), werr)
}

func diff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}
