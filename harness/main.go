package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// usage: harness run <scenarios.ndjson> <out.ndjson> <tmpdir> [repo]
// One JSON line per scenario; a line is written (and flushed) as soon as its scenario is finished.
func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 5 {
		fmt.Fprintln(os.Stderr, "usage")
		os.Exit(2)
	}
	if len(os.Args) > 5 {
		repoDir = os.Args[5]
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[3])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		line := sc.Bytes()
		if len(strings.TrimSpace(string(line))) == 0 {
			continue
		}
		var s Scenario
		if err := json.Unmarshal(line, &s); err != nil {
			fmt.Fprintln(os.Stderr, "scenario:", err)
			os.Exit(2)
		}
		done := make(chan M, 1)
		go func() { done <- runScenario(&s, os.Args[4]) }()
		var res M
		select {
		case res = <-done:
		case <-time.After(200 * time.Second):
			res = M{"id": s.ID, "hang": true, "ev": []any{}}
		}
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
		if res["hang"] == true {
			out.Close()
			os.Exit(3)
		}
	}
	out.Close()
}

// UnmarshalJSON keeps the raw operations, they are copied to the trace
func (s *Scenario) UnmarshalJSON(b []byte) error {
	var x struct {
		ID  string            `json:"id"`
		Par bool              `json:"par"`
		Ops []json.RawMessage `json:"ops"`
		GP  []json.RawMessage `json:"gp"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	s.ID, s.Par, s.raw = x.ID, x.Par, x.Ops
	if len(x.GP) > 0 {
		s.raw = x.GP
		for _, r := range x.GP {
			var op GPOp
			if err := json.Unmarshal(r, &op); err != nil {
				return err
			}
			s.GP = append(s.GP, op)
		}
		return nil
	}
	for _, r := range x.Ops {
		var op Op
		if err := json.Unmarshal(r, &op); err != nil {
			return err
		}
		s.Ops = append(s.Ops, op)
	}
	return nil
}

func runScenario(s *Scenario, tmp string) M {
	dir, err := os.MkdirTemp(tmp, "scn")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if len(s.GP) > 0 {
		return runGP(s, dir)
	}
	r := newRunner(dir)
	// characters and images that facts are needed for
	for i := range s.Ops {
		op := &s.Ops[i]
		for _, c := range op.S {
			r.chars[c] = true
		}
		for _, f := range op.Fs {
			for _, c := range "#" + f.Key {
				r.chars[int(c)] = true
			}
		}
		if (op.Op == "img" || op.Op == "rimg") && op.I != "" {
			r.image(op.I, op.ID)
		}
		if op.Op == "addfont" {
			r.font(op.F, op.FD)
		}
	}
	r.chars['#'] = true
	docs := map[int]*docState{}
	evs := make([]Event, len(s.Ops))
	byDoc := map[int][]int{}
	var order []int
	for i := range s.Ops {
		d := s.Ops[i].D
		if _, ok := docs[d]; !ok {
			docs[d] = newDoc()
			order = append(order, d)
		}
		byDoc[d] = append(byDoc[d], i)
	}
	if s.Par {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, d := range order {
			wg.Add(1)
			go func(d int) {
				defer wg.Done()
				<-start
				for _, i := range byDoc[d] {
					if docs[d].stuck {
						evs[i] = Event{"r": "skip"}
						continue
					}
					evs[i] = r.exec(docs[d], &s.Ops[i], i+1)
				}
			}(d)
		}
		close(start)
		wg.Wait()
	} else {
		for i := range s.Ops {
			ds := docs[s.Ops[i].D]
			if ds.stuck {
				evs[i] = Event{"r": "skip"}
				continue
			}
			evs[i] = r.exec(ds, &s.Ops[i], i+1)
		}
	}
	// observations
	prot := map[int]protInfo{}
	out := []any{}
	for i := range s.Ops {
		op := &s.Ops[i]
		ev := evs[i]
		if op.Op == "prot" && ev["r"] == "ok" {
			prot[op.D] = protInfo{set: true, u: bytesOf(op.U), o: bytesOf(op.O)}
		}
		m := M{}
		var rawm map[string]json.RawMessage
		json.Unmarshal(s.raw[i], &rawm)
		for k, v := range rawm {
			m[k] = v
		}
		delete(m, "t")
		delete(m, "fd")
		delete(m, "id")
		for k, v := range ev {
			if k == "obs" || k == "obstf" {
				continue
			}
			m[k] = v
		}
		if raw, ok := ev["obs"].([]byte); ok {
			m["obs"] = r.observe(raw, ev["obstf"].(int), prot[op.D])
			if kd := os.Getenv("VERIF_KEEP"); kd != "" {
				os.WriteFile(fmt.Sprintf("%s/%s_%d.pdf", kd, s.ID, i+1), raw, 0644)
			}
		}
		out = append(out, m)
	}
	ff := M{}
	var keys []string
	for k := range r.fonts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ff[k] = r.fontFacts(k)
	}
	im := M{}
	badimgs := []string{}
	for k := range r.imgs {
		im[k] = r.imgDig[k]
		if strings.HasPrefix(k, "bad") {
			badimgs = append(badimgs, k)
		}
	}
	res := M{"id": s.ID, "hang": false, "ev": out, "tfs": r.tfs, "fonts": ff, "imgs": im, "badimgs": badimgs}
	if r.tfs == nil {
		res["tfs"] = []any{}
	}
	return res
}
