package main

import (
	"fmt"
	"strings"
)

// threadVariants: the same input and options with every number of threads in a list must
// give the same file. The reference is one thread. opts contain "%t" where the count goes.
func (e *Env) threadVariants() {
	optSets := [][]string{
		{"-d", "-b-", "-r-", "-na=0m=3t=%t"},
		{"-d", "-b-", "-r-", "-na=1m=3t=%t"},
		{"-d", "-b-", "-r-", "-na=2m=3t=%t"},
		{"-d", "-b-", "-r-", "-na=3m=3t=%t"},
		{"-d", "-b-", "-r-", "-na=0m=3t=%tc=x"},
		{"-d", "-b-", "-r-", "-na=2m=2t=%tc=V"},
		{"-d", "-b-", "-r-", "-na=2m=3t=%tc=D"},
		{"-d", "-b-", "-r-", "-na=1m=1t=%tc=Z", "--stknode"},
		{"-d", "-b-", "-r-", "-na=2m=3t=%t", "--speedtree-"},
		{"-d", "-n-", "-r-", "-be=1t=%t"},
		{"-d", "-n-", "-r-", "-bz=2ae=1t=%t"},
	}
	maps := []*Map{starRooms(), selfRefMap(), lRoom(0, 0, 128), twoRooms(8, 16, 96), roomsRow(3, 0, 0, 96)}
	stride := 60
	if e.Thorough() {
		stride = 5
	}
	for _, f := range geoFamilies(false) {
		k := 0
		f.Gen(func(m *Map) {
			if k%stride == 0 && len(m.Lines) > 0 {
				mm := m.Clone()
				for i := range mm.Sectors {
					mm.Sectors[i].Floor = 8 * i
				}
				maps = append(maps, mm)
			}
			k++
		})
	}
	chunks := chunk(maps, 8)
	type job struct {
		o  []string
		ms []*Map
	}
	var jobs []job
	for _, o := range optSets {
		for _, c := range chunks {
			jobs = append(jobs, job{o, c})
		}
	}
	with := func(o []string, t int) []string {
		var r []string
		for _, x := range o {
			r = append(r, strings.ReplaceAll(x, "%t", fmt.Sprint(t)))
		}
		return r
	}
	counts := []int{2, 3, 8}
	differs := func(o []string, ms []*Map, t int) (string, []byte) {
		in := packMaps(ms)
		a, x := e.RunOn(with(o, 1), in)
		b, y := e.RunOn(with(o, t), in)
		if a.Timeout || b.Timeout {
			return "", nil
		}
		if a.OK() != b.OK() {
			return fmt.Sprintf("one thread: %s, %d threads: %s", a.Brief(), t, b.Brief()), in
		}
		if a.OK() && string(x) != string(y) {
			return fmt.Sprintf("output of %d threads differs from that of one thread: %s", t, diffBytes(x, y)), in
		}
		return "", nil
	}
	e.Parallel(len(jobs), func(i int) {
		if e.Stop() {
			e.R.Capped.Store(true)
			return
		}
		j := jobs[i]
		for _, t := range counts {
			e.R.Count("thread_count_comparisons", int64(len(j.ms)))
			s, in := differs(j.o, j.ms, t)
			if s == "" {
				continue
			}
			ms := j.ms
			for _, m := range j.ms {
				if s2, in2 := differs(j.o, []*Map{m}, t); s2 != "" {
					s, in, ms = s2, in2, []*Map{m}
					break
				}
			}
			o := with(j.o, t)
			e.Fail(Violation{
				Key:   "threads " + strings.Join(o, " ") + " " + hashKey(string(in)),
				Msg:   s,
				Files: map[string][]byte{"in.wad": in},
				Args:  o,
				Recheck: func() bool {
					for k := 0; k < 5; k++ {
						if s, _ := differs(j.o, ms, t); s != "" {
							return true
						}
					}
					return false
				},
			})
		}
	})
}
