package main

import (
	"context"
	"fmt"
	"net/http"
	"runtime"
	"strings"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

func init() {
	register(&Property{
		ID: "C30",
		Rule: "thousands of negotiations, choices, serializations and deserializations with requests, offers and contents that never repeat, also failing ones, through the same negotiators, algorithms and representations; " +
			"live heap after garbage collection and goroutines are compared before and after. Non-trivial: distinct by workload.",
		Subs: []Sub{
			{Name: "memory", Quick: 10, Thorough: 240, Serial: true, Run: c30Memory},
		},
		MinEvents: []string{"kind:proactive", "kind:transparent", "kind:reactive", "kind:choose", "kind:serialize", "kind:deserialize", "failed", "measured", "goroutines-counted"},
	})
}

func liveHeap() (uint64, int) {
	var m runtime.MemStats
	for k := 0; k < 3; k++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc, runtime.NumGoroutine()
}

// settled waits for goroutines that are about to end.
func settled(atMost int) int {
	for k := 0; ; k++ {
		if n := runtime.NumGoroutine(); n <= atMost || k > 200 {
			return n
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// novel adds values to a request that no other request has.
func novel(r *Rand, h http.Header, id string) http.Header {
	add := func(k, v string) {
		if vs := h[k]; len(vs) > 0 && r.P(50) {
			h[k] = append(append([]string{}, vs[:len(vs)-1]...), vs[len(vs)-1]+", "+v)
		} else {
			h[k] = append(append([]string{}, vs...), v)
		}
	}
	if r.P(50) {
		add("Accept", "x/u"+id+";level="+id[1:])
	}
	if r.P(50) {
		add("Accept-Language", "x-"+id+";q=0.3")
	}
	if r.P(50) {
		add("Accept-Charset", "cs-"+id)
	}
	if r.P(30) {
		add("Accept-Encoding", "gzip")
	}
	if r.P(50) {
		add("Accept-Features", "f"+id+"="+id)
	}
	if r.P(30) {
		h["Negotiate"] = []string{pickOf(r, "*", "1.0", "trans", "guess-small")}
	}
	return h
}

func c30Memory(c *Case) {
	r := c.R
	kinds := shuffled(r, []string{"proactive", "transparent", "reactive", "choose", "serialize", "deserialize"})[:r.Range(1, 6)]
	type target struct {
		kind   string
		n      negotiator.Negotiator
		offers []*Rep
		next   func() job
	}
	var targets []*target
	for _, kind := range kinds {
		t := &target{kind: kind}
		nk := kind
		switch kind {
		case "choose":
			nk = pickOf(r, "proactive", "transparent")
		case "serialize", "deserialize":
			nk = "reactive"
		}
		t.offers, t.next = genOffer(r, nk, 8)
		if nk != "reactive" || kind == "reactive" {
			t.n = genConfig(r, nk).build(nil, nil)
		}
		targets = append(targets, t)
		c.Count("kind:" + kind)
	}
	apache, rvsa := proactive.ApacheHTTPD(), transparent.RVSA1()
	doc := genRich(r, 100)
	// the context of an application, which ends long after its requests.
	running, stop := context.WithCancel(context.Background())
	defer stop()
	failed := 0
	seq := 0
	one := func() {
		t := pick(r, targets)
		seq++
		id := fmt.Sprintf("n%d", 1000+seq)
		switch t.kind {
		case "serialize", "deserialize":
			doc.Title = id
			doc.SetContentLanguage("x-" + id)
			doc.SetContentCharset("cs-" + id)
			doc.SetContentType(pickOf(r, "application/json", "application/xml;v="+id, "text/yaml", "image/"+id))
			doc.SetContentEncoding(genCodings(r, 2))
			if r.P(5) {
				doc.SetContentEncoding([]string{"c" + id})
			}
			b, err := doc.Bytes()
			if err == nil && t.kind == "deserialize" {
				if r.P(30) && len(b) > 1 {
					b = b[:r.Intn(len(b))]
				} else if r.P(4) {
					b = []byte(strings.Repeat(id, r.Range(100, 10000)))
				}
				var back rich
				back.SetContentType(doc.ContentType())
				back.SetContentEncoding(doc.ContentEncoding())
				err = back.FromBytes(b)
			}
			if err != nil {
				failed++
			}
			return
		}
		j := t.next()
		j.h = novel(r, j.h.Clone(), id)
		if r.P(50) {
			j.ctx = running
		}
		if r.P(50) {
			j.target, j.host = "http://h"+id+".example.com/r/"+id, ""
		}
		reps := make([]representation.Representation, len(t.offers))
		for i, o := range t.offers {
			reps[i] = o
			if r.P(40) {
				d := o.clone()
				d.Loc = *mustURL("http://h" + id + ".example.com/r/" + id + "." + fmt.Sprint(i))
				d.Body = append(d.Body, id...)
				if t.kind != "transparent" {
					d.Lang = "x-" + id
				}
				reps[i] = d
			}
		}
		if t.kind == "choose" {
			chooser := representation.Chooser(apache)
			if r.Bool() {
				chooser = rvsa
			}
			o := observe(NewRecorder(), func() error { _, err := chooser.Choose(j.request(), reps...); return err })
			if o.Err != nil {
				failed++
			}
			return
		}
		if o := j.perform(t.n, reps); o.Err != nil {
			failed++
		}
	}
	// what is initialized once.
	for k := 0; k < 300; k++ {
		one()
	}
	// what is kept up to a limit has reached it by half of them.
	rounds, each := 6, 2000
	start, goroutines := liveHeap()
	var sizes []int64
	for k := 0; k < rounds; k++ {
		for i := 0; i < each; i++ {
			one()
		}
		after, _ := liveHeap()
		sizes = append(sizes, int64(after)-int64(start))
	}
	growth := sizes[rounds-1] - sizes[rounds/2-1]
	c.Eval(rounds * each)
	if failed > 0 {
		c.Count("failed")
	}
	c.CountN("measured", rounds)
	c.Nontrivial(strings.Join(kinds, ","), fmt.Sprint(c.Idx))
	c.Desc("%v: live heap after rounds of %[3]d: %[2]v more bytes", kinds, sizes, each)
	if growth > int64(12*each*(rounds-rounds/2)) {
		c.Fail("negotiations leave memory behind: after rounds of %d, %v more bytes are in use", each, sizes)
	}
	c.Count("goroutines-counted")
	if n := settled(goroutines); n > goroutines+2 {
		c.Fail("%d goroutines before, %d afterwards", goroutines, n)
	}
	c.Sample(map[string]any{"kinds": kinds, "negotiations": rounds * each, "failed": failed, "heap_growth": sizes, "goroutines": goroutines})
}
