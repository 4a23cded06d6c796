// C08: batched stacking monitor. A probe operator inside the batch pipeline
// records which frames each batch gets; an offline checker over that trace
// decides exactly-once processing, memory bounds and the combined result.
package main

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

type batchRec struct {
	ids     []int
	threads int
	live    int64
}

// probe is a batch operator: it materializes its inputs, records them and
// returns their mean.
type probe struct {
	ops.OpBase
	mu      sync.Mutex
	batches []batchRec
	failAt  int // batch that fails, -1 none
	nilAt   int
	sizeAt  int
	stack   ops.Operator
}

func (p *probe) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	return []ops.Promise{func() (*fits.Image, error) {
		fs, err := ops.MaterializeAll(ins, c.MaxThreads, false)
		if err != nil {
			return nil, err
		}
		rec := batchRec{threads: c.MaxThreads}
		for _, f := range fs {
			rec.ids = append(rec.ids, f.ID)
		}
		p.mu.Lock()
		b := len(p.batches)
		p.batches = append(p.batches, rec)
		p.mu.Unlock()
		switch b {
		case p.failAt:
			return nil, errors.New("probe: batch failed")
		case p.nilAt:
			return nil, nil
		case p.sizeAt:
			return kit.Img(0, 3, 3, make([]float32, 9)), nil
		}
		if p.stack != nil {
			outs, err := p.stack.MakePromises(kit.Proms(fs), c)
			if err != nil {
				return nil, err
			}
			return outs[0]()
		}
		if len(fs) == 0 {
			return nil, errors.New("probe: empty batch")
		}
		res := fits.NewImageFromNaxisn(append([]int32(nil), fs[0].Naxisn...), make([]float32, len(fs[0].Data)))
		for _, f := range fs {
			res.Exposure += f.Exposure
			for i, v := range f.Data {
				res.Data[i] += v / float32(len(fs))
			}
		}
		return res, nil
	}}, nil
}

// runs with several batches of the current case, and those whose frames were
// not assigned to the batches in their original order
var multi, random int

type cfg struct {
	n, w, h, planes int
	memMB, procs    int
	dark, flat      bool
	realStack       bool
	nilFrames       map[int]bool
	failFrame       int
	failBatch       int
	nilBatch        int
	sizeBatch       int
}

func (g cfg) String() string {
	return fmt.Sprintf("n=%d %dx%dx%d mem=%d procs=%d dark=%v flat=%v", g.n, g.w, g.h, g.planes, g.memMB, g.procs, g.dark, g.flat)
}

func exec(c *kit.C, g cfg) (*fits.Image, *probe, []int64, error) {
	old := runtime.GOMAXPROCS(g.procs)
	defer runtime.GOMAXPROCS(old)
	ctx, _ := kit.Context()
	ctx.StackMemoryMB = g.memMB
	ax := []int32{int32(g.w), int32(g.h)}
	if g.planes > 1 {
		ax = append(ax, int32(g.planes))
	}
	if g.h == 0 {
		ax = []int32{int32(g.w)}
	}
	px := 1
	for _, a := range ax {
		px *= int(a)
	}
	if g.dark {
		ctx.DarkFrame = fits.NewImageFromNaxisn(ax, make([]float32, px))
	}
	if g.flat {
		ctx.FlatFrame = fits.NewImageFromNaxisn(ax, make([]float32, px))
	}
	evals := make([]int64, g.n)
	ins := make([]ops.Promise, g.n)
	for i := range ins {
		i := i
		ins[i] = func() (*fits.Image, error) {
			atomic.AddInt64(&evals[i], 1)
			if i == g.failFrame {
				return nil, fmt.Errorf("frame %d broken", i)
			}
			if g.nilFrames[i] {
				return nil, nil
			}
			d := make([]float32, px)
			for p := range d {
				d[p] = float32(i) + float32(p&7)*0.25
			}
			f := fits.NewImageFromNaxisn(append([]int32(nil), ax...), d)
			f.ID, f.Exposure = i, float32(1+i%5)
			return f, nil
		}
	}
	p := &probe{OpBase: ops.OpBase{Type: "vkProbe"}, failAt: g.failBatch, nilAt: g.nilBatch, sizeAt: g.sizeBatch}
	if g.realStack {
		p.stack = stack.NewOpStack(stack.StMean, stack.StWeightNone, 2.75, 2.75)
	}
	op := stack.NewOpStackBatches(ops.NewOpSequence(p))
	outs, err := op.MakePromises(ins, ctx)
	if err != nil {
		return nil, p, evals, err
	}
	if len(outs) != 1 {
		c.Fatal("%v: %d promises", g, len(outs))
	}
	f, err := outs[0]()
	return f, p, evals, err
}

func one(c *kit.C, g cfg) {
	bytes := int64(4 * g.w)
	if g.h > 0 {
		bytes *= int64(g.h)
	}
	if g.planes > 1 {
		bytes *= int64(g.planes)
	}
	avail := int64(g.memMB) << 20 / bytes
	fixed := int64(0)
	if g.dark {
		fixed++
	}
	if g.flat {
		fixed++
	}
	f, p, evals, err := exec(c, g)
	c.Count("runs", 1)
	faulty := g.failFrame >= 0 && g.failFrame < g.n
	if err != nil {
		if f != nil {
			c.Fatal("%v: error %v together with an image", g, err)
		}
		if n := len(p.batches); len(g.nilFrames) > 1 && n > 0 && len(p.batches[n-1].ids) == 0 {
			c.Count("batch_of_skipped_frames_refused", 1) // random batches may leave one without any frame
			return
		}
		if !faulty && avail-1-fixed-2 >= 2 {
			c.Fatal("%v: refused though %d frames fit: %v", g, avail, err)
		}
		c.Count("refused", 1)
		c.Seen("refused", avail, g.n, g.procs, faulty)
		return
	}
	if faulty {
		c.Fatal("%v: frame %d failed, but the stack succeeded", g, g.failFrame)
	}
	if f == nil {
		c.Fatal("%v: no image and no error", g)
	}
	if avail-1-fixed < 2 {
		c.Fatal("%v: memory holds %d frames only, but stacking succeeded", g, avail)
	}
	seen := make([]int, g.n)
	for bi, b := range p.batches {
		if len(b.ids) == 0 && len(g.nilFrames) == 0 {
			c.Fatal("%v: batch %d of %d is empty", g, bi, len(p.batches))
		}
		need := int64(len(b.ids)+b.threads) + fixed
		if len(p.batches) > 1 {
			need += 2
		}
		if need > avail {
			c.Fatal("%v: batch %d of %d has %d frames with %d threads, needs %d frames of memory, %d fit", g, bi, len(p.batches), len(b.ids), b.threads, need, avail)
		}
		if b.threads < 1 || b.threads > g.procs {
			c.Fatal("%v: %d threads", g, b.threads)
		}
		for _, id := range b.ids {
			seen[id]++
		}
	}
	esum, nvalid := 0.0, 0
	mean := 0.0
	for i, s := range seen {
		if g.nilFrames[i] {
			continue
		}
		if s != 1 {
			c.Fatal("%v: frame %d was in %d batches (of %d)", g, i, s, len(p.batches))
		}
		if evals[i] < 1 || evals[i] > 2 || (evals[i] == 2 && g.nilFrames == nil && i != 0) {
			c.Fatal("%v: frame %d was loaded %d times", g, i, evals[i])
		}
		esum += float64(1 + i%5)
		mean += float64(i)
		nvalid++
	}
	mean /= float64(nvalid)
	if math.Abs(float64(f.Exposure)-esum) > 1e-4*esum {
		c.Fatal("%v: exposure %v, frames sum to %v (%d batches)", g, f.Exposure, esum, len(p.batches))
	}
	if len(g.nilFrames) == 0 {
		for q, v := range f.Data {
			w := mean + float64(q&7)*0.25
			if math.Abs(float64(v)-w) > 1e-4*(1+math.Abs(w)) {
				c.Fatal("%v: pixel %d is %v, mean of all frames %v (%d batches)", g, q, v, w, len(p.batches))
			}
		}
		if len(p.batches) > 1 {
			kit.CheckStats(c, f, g.String())
		}
	}
	c.Count("batches", len(p.batches))
	if len(p.batches) > 1 {
		c.Count("multi_batch_runs", 1)
	}
	if len(p.batches) > 1 && g.n >= 12 && len(g.nilFrames) == 0 { // one random assignment in 924 or fewer keeps the order
		shuffled, next := false, 0
		for _, b := range p.batches {
			set := map[int]bool{}
			for _, id := range b.ids {
				set[id] = true
			}
			for range b.ids {
				if !set[next] {
					shuffled = true
				}
				next++
			}
		}
		if multi++; shuffled {
			random++
		}
	}
	last := len(p.batches[len(p.batches)-1].ids)
	c.Seen(g.n, g.procs, avail, len(p.batches), last)
	c.Sample("%v: %d batches, %d fit", g, len(p.batches), avail)
}

func main() {
	none := cfg{failFrame: -1, failBatch: -1, nilBatch: -1, sizeBatch: -1}
	kit.Main("C08", "distinct (frames, cpus, frames fitting memory, batches, size of last batch)", func(k *kit.K) {
		// every frame count against every number of frames that fit
		dims := []struct{ w, h, planes, fit int }{ // frames per MB
			{256, 256, 1, 4}, {209, 250, 1, 5}, {256, 170, 1, 6}, {256, 146, 1, 7}, {128, 256, 1, 8}, {233, 125, 1, 9}, {128, 204, 1, 10},
			{128, 186, 1, 11}, {128, 170, 1, 12}, {150, 130, 1, 13}, {100, 174, 1, 15}, {128, 128, 1, 16}, {96, 151, 1, 18}, {100, 119, 1, 22}, {64, 146, 1, 28},
			{64, 128, 1, 32}, {64, 100, 1, 40}, {65536, 0, 1, 4}, {20000, 0, 1, 13}, {146, 100, 3, 5}, {64, 91, 3, 15}, {300, 400, 1, 2}, {512, 512, 1, 1}, {600, 600, 1, 0},
		}
		maxN := k.N(44, 150)
		for _, d := range dims {
			for _, procs := range []int{1, 2, 3, 5, 8} {
				d, procs := d, procs
				k.Case(fmt.Sprintf("all/%dx%dx%d/p%d", d.w, d.h, d.planes, procs), func(c *kit.C) {
					multi, random = 0, 0
					defer func() {
						c.Count("runs_with_random_batches", random)
						if multi >= 5 && random == 0 && !c.Bad() {
							c.Fail("%d runs over several batches, frames never were assigned to batches in random order", multi)
						}
					}()
					for n := 1; n <= maxN; n++ {
						g := none
						g.n, g.w, g.h, g.planes, g.procs = n, d.w, d.h, d.planes, procs
						g.memMB = 1
						g.dark, g.flat = c.Rng.Intn(5) == 0, c.Rng.Intn(5) == 0
						g.realStack = c.Rng.Intn(4) == 0
						if n > 12 && c.Rng.Intn(3) > 0 && !k.Thorough() {
							continue
						}
						one(c, g)
						if c.Bad() {
							return
						}
					}
				})
			}
		}
		for i := 0; i < k.N(3, 10); i++ {
			k.Case(fmt.Sprintf("long/%d", i), func(c *kit.C) { // a long night
				g := none
				g.w, g.h, g.planes = 100+c.Rng.Intn(20), 20+c.Rng.Intn(20), 1
				g.n, g.memMB, g.procs = 301+c.Rng.Intn(400), 1+2*i, 1+c.Rng.Intn(8)
				g.realStack = i%2 == 0
				one(c, g)
			})
		}
		for i := 0; i < k.N(60, 800); i++ {
			k.Case(fmt.Sprintf("random/%d", i), func(c *kit.C) {
				g := none
				g.w, g.h, g.planes = 20+c.Rng.Intn(200), 20+c.Rng.Intn(200), 1+2*c.Rng.Intn(2)
				g.n, g.memMB, g.procs = 1+c.Rng.Intn(90), 1+c.Rng.Intn(3), 1+c.Rng.Intn(8)
				g.dark, g.flat, g.realStack = c.Rng.Intn(4) == 0, c.Rng.Intn(4) == 0, c.Rng.Intn(2) == 0
				if c.Rng.Intn(3) == 0 {
					g.failFrame = c.Rng.Intn(g.n)
				} else if c.Rng.Intn(3) == 0 {
					g.nilFrames = map[int]bool{}
					for j := 0; j < g.n; j++ {
						if c.Rng.Intn(6) == 0 {
							g.nilFrames[j] = true
						}
					}
					if c.Rng.Intn(2) == 0 {
						g.nilFrames[0] = true
					}
					if len(g.nilFrames) == g.n {
						delete(g.nilFrames, g.n-1)
					}
					g.realStack = true
				}
				one(c, g)
			})
		}
		// each batch fails, is skipped or has another size
		k.Case("batchfaults", func(c *kit.C) {
			for _, n := range []int{3, 9, 17, 30} {
				for _, procs := range []int{1, 4} {
					g := none
					g.n, g.w, g.h, g.planes, g.memMB, g.procs = n, 128, 204, 1, 1, procs
					_, p, _, err := exec(c, g)
					if err != nil {
						c.Fatal("%v failed: %v", g, err)
					}
					for b := range p.batches {
						for kind := 0; kind < 3; kind++ {
							h := g
							switch kind {
							case 0:
								h.failBatch = b
							case 1:
								h.nilBatch = b
							case 2:
								h.sizeBatch = b
								if len(p.batches) == 1 {
									continue
								}
							}
							f, _, _, err := exec(c, h)
							if err == nil || f != nil {
								c.Fatal("%v: batch %d of %d failed (kind %d), but the stack succeeded", h, b, len(p.batches), kind)
							}
							c.Count("batch_faults", 1)
							c.Seen("fault", n, procs, b, kind)
						}
					}
				}
			}
			ctx, _ := kit.Context()
			if outs, err := stack.NewOpStackBatches(ops.NewOpSequence()).MakePromises(nil, ctx); err == nil {
				if f, err := outs[0](); err == nil {
					c.Fatal("no frames: result %v", f)
				}
			}
			op := stack.NewOpStackBatches(nil)
			outs, err := op.MakePromises([]ops.Promise{kit.Prom(kit.Img(0, 4, 4, make([]float32, 16)))}, ctx)
			if err == nil {
				_, err = outs[0]()
			}
			if err == nil {
				c.Fatal("missing batch pipeline accepted")
			}
			all := none
			all.n, all.w, all.h, all.planes, all.memMB, all.procs = 5, 16, 16, 1, 4, 2
			all.nilFrames = map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true}
			if f, _, _, err := exec(c, all); err == nil {
				c.Fatal("all frames skipped: result %v", f)
			}
		})
	})
}
