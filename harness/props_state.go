package main

import (
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"go.uber.org/zap/zaptest/observer"
)

func init() {
	register(&Property{
		ID: "C19",
		Rule: "goroutines share negotiators (also the package defaults), algorithms, the offered slice, representations (harness and library ones) and negotiate at the same time, in binaries built with the race detector, also as the very first ones of a process; " +
			"every response is compared with the response of the same negotiation alone, and every report of the race detector is a violation. Non-trivial: negotiations overlapped in time; distinct by the order of the recorded steps.",
		Subs: []Sub{
			{Name: "negotiate", Quick: 700, Thorough: 8000, Serial: true, Run: c19Negotiate},
			{Name: "mixed", Quick: 350, Thorough: 4000, Serial: true, Run: c19Mixed},
			{Name: "library", Quick: 350, Thorough: 4000, Serial: true, Run: c19Library},
			{Name: "http", Quick: 150, Thorough: 3000, Serial: true, Run: c19HTTP},
			{Name: "cold", Quick: 90, Thorough: 1500, Serial: true, Run: c19Cold},
		},
		MinEvents: []string{"race-detector", "overlapping", "kind:proactive", "kind:reactive", "kind:transparent", "default-negotiator", "library-representations",
			"status:200", "status:300", "status:406", "error", "cold"},
	})
	register(&Property{
		ID: "C20",
		Rule: "before and after every negotiation the request (with its headers and what lies behind their values), the offered slice (and what lies behind it), and every representation with its metadata and bytes are compared; " +
			"negotiations are repeated in random order after other, also failing, negotiations and compared with their first response from fresh objects; " +
			"responses after a history with offers that change under the same locations are compared with those of a process of their own that performs nothing else. Non-trivial: distinct by configuration, request and offer.",
		Subs: []Sub{
			{Name: "inputs", Quick: 40000, Thorough: 900000, Run: c20Inputs},
			{Name: "history", Quick: 2500, Thorough: 60000, Run: c20History},
			{Name: "bytes", Quick: 1500, Thorough: 30000, Run: c20Bytes},
			{Name: "process", Quick: 300, Thorough: 6000, Run: c20Process},
		},
		MinEvents: []string{"kind:proactive", "kind:reactive", "kind:transparent", "status:200", "status:201", "status:300", "status:406", "error", "repeated", "after-failure", "serialization-failure", "choose", "bytes-kept", "fresh-process", "changed-offer", "changed-in-place", "twin", "common-prefix"},
	})
	register(&Property{
		ID:   "C21",
		More: 5,
		Rule: "a test scope and a log observer record sequences of negotiations of several negotiators on one scope, with malformed requests, failing serialization and failing writers; " +
			"the difference of metrics and log entries of each negotiation is compared with the observed response, concurrent ones in total. Non-trivial: distinct by kind, outcome and request.",
		Subs: []Sub{
			{Name: "sequence", Quick: 3000, Thorough: 80000, Run: c21Sequence},
			{Name: "concurrent", Quick: 150, Thorough: 4000, Run: c21Concurrent},
			{Name: "duration", Quick: 24, Thorough: 400, Run: c21Duration},
		},
		MinEvents: []string{"proactive:200", "proactive:201", "proactive:204", "proactive:406", "proactive:error", "reactive:300", "reactive:204", "reactive:error",
			"transparent:200", "transparent:300", "transparent:204", "transparent:error", "write-error", "shared-scope", "timed", "failed:list-bytes", "failed:bytes"},
	})
}

// ---------------------------------------------------------------------------
// C19.

// plainRep is a representation without any synchronization of its own, which
// gives way to other goroutines.
type plainRep struct {
	*Rep
	yield int
}

func (p *plainRep) pause() {
	for i := 0; i < p.yield; i++ {
		runtime.Gosched()
	}
}

func (p *plainRep) ContentType() string       { p.pause(); return p.Rep.ContentType() }
func (p *plainRep) ContentLanguage() string   { p.pause(); return p.Rep.Lang }
func (p *plainRep) ContentEncoding() []string { p.pause(); return p.Rep.Enc }
func (p *plainRep) Bytes() ([]byte, error)    { p.pause(); return p.Rep.Body, p.Rep.Err }
func (p *plainRep) SourceQuality() float32    { p.pause(); return p.Rep.SourceQuality() }
func (p *plainRep) FromBytes(b []byte) error  { return nil }
func (p *plainRep) ContentFeatures() []string { return p.Rep.Feat }

var _ representation.Representation = (*plainRep)(nil)

// raceLog is the log_path of the race detector, if it is on.
var raceLog string

var raceSeen int

// raceReports are the new reports of the race detector.
func raceReports() (out []string) {
	if raceLog == "" {
		return nil
	}
	files, _ := filepath.Glob(raceLog + ".*")
	var all []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		must(err)
		all = append(all, strings.Split(string(b), "WARNING: DATA RACE")[1:]...)
	}
	if len(all) > raceSeen {
		out = all[raceSeen:]
		raceSeen = len(all)
	}
	return out
}

type span struct {
	from, to time.Time
	g, i     int
}

// overlapSig describes the order of begins and ends; the number of
// negotiations that overlapped others is returned as well.
func overlapSig(spans []span) (string, int) {
	type ev struct {
		at time.Time
		s  string
	}
	var evs []ev
	overlapping := 0
	for i, s := range spans {
		evs = append(evs, ev{s.from, fmt.Sprintf("+%d.%d", s.g, s.i)}, ev{s.to, fmt.Sprintf("-%d.%d", s.g, s.i)})
		for k, t := range spans {
			if i != k && s.g != t.g && s.from.Before(t.to) && t.from.Before(s.to) {
				overlapping++
				break
			}
		}
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at.Before(evs[b].at) })
	var b strings.Builder
	for _, e := range evs {
		b.WriteString(e.s)
	}
	return b.String(), overlapping
}

// together runs functions at the same time, each a number of times, in an
// order of its own.
func together(r *Rand, goroutines, each int, f func(g, i int, r *Rand)) []span {
	start := make(chan struct{})
	var wg sync.WaitGroup
	spans := make([][]span, goroutines)
	for g := 0; g < goroutines; g++ {
		wg.Add(1)
		rg := NewRand(r.U64())
		go func(g int) {
			defer wg.Done()
			<-start
			for i := 0; i < each; i++ {
				s := span{from: time.Now(), g: g, i: i}
				f(g, i, rg)
				s.to = time.Now()
				spans[g] = append(spans[g], s)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	var all []span
	for _, s := range spans {
		all = append(all, s...)
	}
	return all
}

// shared is something shared by concurrent negotiations.
type shared struct {
	conf config
	neg  negotiator.Negotiator
	reps []representation.Representation
	// twin is equal, but nothing of it is shared.
	twin     negotiator.Negotiator
	twinReps []representation.Representation
	jobs     []job
	want     []string
}

func (s *shared) baseline() {
	s.want = nil
	for _, j := range s.jobs {
		s.want = append(s.want, j.perform(s.twin, s.twinReps).Sig())
	}
}

func genShared(c *Case, kind string, njobs int) *shared {
	r := c.R
	s := &shared{conf: genConfig(r, kind)}
	chooser := func() representation.Chooser {
		if kind == "transparent" {
			return transparent.RVSA1()
		}
		return proactive.ApacheHTTPD()
	}
	useChooser := r.Bool()
	if useChooser {
		s.conf.chooser = chooser()
	}
	s.neg = s.conf.build(nil, nil)
	twin := s.conf
	if useChooser {
		twin.chooser = chooser()
	}
	s.twin = twin.build(nil, nil)
	if s.conf.def {
		c.Count("default-negotiator")
	}
	offers, next := genOffer(r, kind, 14)
	yield := pickOf(r, 0, 0, 1, 3)
	for _, o := range offers {
		s.reps = append(s.reps, &plainRep{o, yield})
		s.twinReps = append(s.twinReps, &plainRep{o.clone(), 0})
	}
	for k := 0; k < njobs; k++ {
		s.jobs = append(s.jobs, next())
	}
	c.Count("kind:" + kind)
	c.Desc("%s", s.conf)
	for _, o := range offers {
		c.Desc("offered %s", o)
	}
	return s
}

type mismatch struct {
	s    *shared
	k    int
	o    Outcome
	want string
}

func c19Run(c *Case, all []*shared) {
	r := c.R
	if raceDetector {
		c.Count("race-detector")
	}
	// what is initialized lazily must be safe, too: the baselines warm up
	// package state, so they come last in half of the cases.
	before := r.Bool()
	if before {
		for _, s := range all {
			s.baseline()
		}
	}
	type result struct {
		s *shared
		k int
		o Outcome
	}
	goroutines, each := r.Range(2, 8), r.Range(2, 6)
	results := make([][]result, goroutines)
	spans := together(r, goroutines, each, func(g, i int, rg *Rand) {
		s := pick(rg, all)
		k := rg.Intn(len(s.jobs))
		if rg.P(30) {
			runtime.Gosched()
		}
		results[g] = append(results[g], result{s, k, s.jobs[k].perform(s.neg, s.reps)})
	})
	if !before {
		for _, s := range all {
			s.baseline()
		}
	}
	c.Eval(goroutines * each)
	sig, overlapping := overlapSig(spans)
	c.CountN("overlapping", overlapping)
	if overlapping > 0 {
		c.Nontrivial(fmt.Sprint(all[0].conf), sig)
	}
	for _, rs := range results {
		for _, x := range rs {
			switch {
			case x.o.Err != nil:
				c.Count("error")
			case x.o.Panic == nil:
				c.Count(fmt.Sprintf("status:%d", x.o.StatusCode()))
			}
			if got := x.o.Sig(); got != x.s.want[x.k] {
				c.Desc("concurrent negotiation of %s", x.s.jobs[x.k].key())
				c.Fail("concurrently: %s, but alone: %s", short(got, 800), short(x.s.want[x.k], 800))
				return
			}
		}
	}
	c19Races(c)
	c.Sample(map[string]any{"goroutines": goroutines, "negotiations": goroutines * each, "overlapping": overlapping, "order": short(sig, 300)})
}

func c19Races(c *Case) {
	reports := raceReports()
	for i, rep := range reports {
		if i < 3 {
			c.Fail("data race reported by the race detector: %s", short(strings.TrimSpace(rep), 3000))
		}
	}
	c.CountN("race-reports", len(reports))
}

func c19Negotiate(c *Case) {
	kind := pickOf(c.R, "proactive", "proactive", "transparent", "transparent", "reactive")
	c19Run(c, []*shared{genShared(c, kind, c.R.Range(1, 6))})
}

func c19Mixed(c *Case) {
	var all []*shared
	for k := c.R.Range(2, 4); k > 0; k-- {
		all = append(all, genShared(c, pickOf(c.R, "proactive", "transparent", "reactive"), c.R.Range(1, 3)))
	}
	c19Run(c, all)
}

// c19Cold has the very first negotiations of a process run at the same time, so
// that whatever is initialized when it's first needed is by several of them.
func c19Cold(c *Case) {
	r := c.R
	var all []*shared
	kind := []string{"proactive", "transparent", "reactive"}[c.Idx%3]
	for k := pickOf(r, 1, 1, 2); k > 0; k-- {
		all = append(all, genShared(c, kind, r.Range(1, 2)))
	}
	goroutines := r.Range(2, 6)
	type turn struct {
		s *shared
		k int
	}
	turns := make([][]turn, goroutines)
	for g := range turns {
		for n := r.Range(1, 2); n > 0; n-- {
			s := pick(r, all)
			turns[g] = append(turns[g], turn{s, r.Intn(len(s.jobs))})
		}
	}
	const sep = "\x00"
	if _, ok := c.childStep(); ok {
		var wg sync.WaitGroup
		var ready atomic.Int64
		sigs := make([][]string, goroutines)
		for g := range turns {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for ready.Add(1); ready.Load() < int64(goroutines); {
					runtime.Gosched()
				}
				for _, t := range turns[g] {
					sigs[g] = append(sigs[g], t.s.jobs[t.k].perform(t.s.neg, t.s.reps).Sig())
				}
			}()
		}
		wg.Wait()
		for _, s := range sigs {
			fmt.Print(strings.Join(s, sep), sep)
		}
		return
	}
	got := strings.Split(c.inProcess(0, 4), sep)
	c.Count("cold")
	c.Nontrivial(fmt.Sprint(all[0].conf), strconv.FormatUint(c.Seed, 10))
	for _, s := range all {
		s.baseline()
	}
	i := 0
	for g := range turns {
		for _, t := range turns[g] {
			c.Eval(1)
			if want := t.s.want[t.k]; i >= len(got) || got[i] != want {
				c.Desc("one of the first negotiations of a process: %s", t.s.jobs[t.k].key())
				c.Fail("concurrently: %s, but alone: %s", short(got[min(i, len(got)-1)], 800), short(want, 800))
				return
			}
			i++
		}
	}
	c19Races(c)
}

// c19HTTP has clients of a server negotiate at the same time.
func c19HTTP(c *Case) {
	c27Clients(c)
	c19Races(c)
}

// libraryRep is a representation built with the library.
func libraryRep(r *Rand, id int) (*rich, func() *rich) {
	size := pickOf(r, 10, 200, 5000)
	seed := r.U64()
	mk := func() *rich {
		rr := NewRand(seed)
		d := genRich(rr, size)
		d.SetContentType(spellType(rr, pick(rr, mediaTypes)))
		d.SetContentLanguage(pick(rr, langPool))
		d.SetContentCharset("utf-8")
		d.SetContentEncoding(spellCodings(rr, genCodings(rr, 3)))
		d.SetContentLocation(*mustURL("http://example.com/r/" + strconv.Itoa(id)))
		d.SetSourceQuality(float32(rr.Range(1, 10)) / 10)
		if rr.Bool() {
			d.SetContentFeatures(renderFeatureList(rr, genFeatureList(rr)))
		}
		return d
	}
	return mk(), mk
}

// c19Library shares representations, lists and algorithms of the library.
func c19Library(c *Case) {
	r := c.R
	if raceDetector {
		c.Count("race-detector")
	}
	c.Count("library-representations")
	n := r.Range(1, 6)
	var docs []*rich
	var reps []representation.Representation
	var twins []representation.Representation
	for i := 0; i < n; i++ {
		d, again := libraryRep(r, i)
		docs = append(docs, d)
		reps = append(reps, d)
		twins = append(twins, again())
		c.Desc("document %d: %s codings %q", i, d.ContentType(), d.ContentEncoding())
	}
	mt := pickOf(r, "application/json", "application/xml", "application/yaml")
	list, twinList := listConstructor(mt, "en", 1)(reps...), listConstructor(mt, "en", 1)(twins...)
	apache, rvsa := proactive.ApacheHTTPD(), transparent.RVSA1()
	g := newGen(r)
	req := g.req(70)
	req.Accept = []MRange{{Media{T: "*", S: "*"}, 500}, {Media{T: "application", S: "json"}, 900}}
	h := req.Header(Style{})
	th := Req{Negotiate: []string{"*", "guess-small"}, Accept: req.Accept, Feat: genFeatures(r)}.Header(Style{})
	id := func(rep representation.Representation, of []representation.Representation) string {
		for i := range of {
			if rep == of[i] {
				return strconv.Itoa(i)
			}
		}
		return fmt.Sprint(rep != nil)
	}
	run := func(op int, reps []representation.Representation, list representation.Representation, apache, rvsa representation.Chooser) string {
		switch op {
		case 0, 1:
			d := reps[op%len(reps)]
			b, err := d.Bytes()
			return fmt.Sprintf("%q %v", b, err)
		case 2:
			b, err := list.Bytes()
			return fmt.Sprintf("%q %v", b, err)
		case 3:
			got, err := apache.Choose(newRequest(resourceURL, h.Clone()), reps...)
			return fmt.Sprint(id(got, reps), err)
		case 4:
			got, err := rvsa.Choose(newRequest(resourceURL, th.Clone()), reps...)
			return fmt.Sprint(id(got, reps), err)
		case 5, 6:
			rec := NewRecorder()
			return negotiateOn(proactive.Default, rec, newRequest(resourceURL, h.Clone()), op == 6, reps).Sig()
		case 7:
			rec := NewRecorder()
			return negotiateOn(reactive.Default, rec, newRequest(resourceURL, h.Clone()), false, reps).Sig()
		case 8:
			rec := NewRecorder()
			return negotiateOn(transparent.Default, rec, newRequest(resourceURL, th.Clone()), false, reps).Sig()
		case 9:
			// round trip through an own document.
			src := reps[0].(*rich)
			b, err := src.Bytes()
			if err != nil {
				return err.Error()
			}
			fresh := &rich{}
			fresh.SetContentType(src.ContentType())
			fresh.SetContentEncoding(src.ContentEncoding())
			err = fresh.FromBytes(b)
			return fmt.Sprint(fresh.value() == src.value(), err)
		}
		// construction of negotiators while others negotiate.
		neg := proactive.New(proactive.DisableStrictMode())
		rec := NewRecorder()
		return negotiateOn(neg, rec, newRequest(resourceURL, h.Clone()), false, reps).Sig()
	}
	const ops = 11
	var want [ops]string
	baseline := func() {
		for op := range want {
			want[op] = run(op, twins, twinList, proactive.ApacheHTTPD(), transparent.RVSA1())
		}
	}
	before := r.Bool()
	if before {
		baseline()
	}
	goroutines, each := r.Range(2, 8), r.Range(2, 5)
	type result struct {
		op  int
		got string
	}
	focus := r.Intn(2 * ops)
	results := make([][]result, goroutines)
	spans := together(r, goroutines, each, func(g, i int, rg *Rand) {
		op := rg.Intn(ops)
		if focus < ops && rg.P(60) {
			op = focus
		}
		results[g] = append(results[g], result{op, run(op, reps, list, apache, rvsa)})
	})
	if !before {
		baseline()
	}
	c.Eval(goroutines * each)
	sig, overlapping := overlapSig(spans)
	c.CountN("overlapping", overlapping)
	if overlapping > 0 {
		c.Nontrivial(sig)
	}
	for _, rs := range results {
		for _, x := range rs {
			if x.got != want[x.op] {
				c.Fail("operation %d concurrently: %s, but alone: %s", x.op, short(x.got, 800), short(want[x.op], 800))
				return
			}
		}
	}
	c19Races(c)
}

// ---------------------------------------------------------------------------
// C20.

func outcomeName(o Outcome) string {
	switch {
	case o.Panic != nil:
		return "panic"
	case o.Err != nil:
		return "error"
	}
	return fmt.Sprintf("status:%d", o.StatusCode())
}

func metaOfRep(rep representation.Representation) string {
	loc := rep.ContentLocation()
	return fmt.Sprintf("%q %q %q %q %q %v %q", rep.ContentType(), rep.ContentLanguage(), rep.ContentCharset(), rep.ContentEncoding(), rep.ContentFeatures(), rep.SourceQuality(), loc.String())
}

func c20Inputs(c *Case) {
	r := c.R
	kind := pickOf(r, "proactive", "proactive", "transparent", "transparent", "reactive")
	c.Count("kind:" + kind)
	conf := genConfig(r, kind)
	offers, next := genOffer(r, kind, 30)
	for _, o := range offers {
		if r.P(30) {
			// unsorted, differently spelled metadata that invites normalization.
			o.Enc = append(o.Enc, "GZip", "identity")[:r.Range(0, len(o.Enc)+2)]
		}
		// what lies behind the slices must not be touched either.
		o.Enc = append(make([]string, 0, len(o.Enc)+2), o.Enc...)
		o.Feat = append(make([]string, 0, len(o.Feat)+2), o.Feat...)
		o.Body = append(make([]byte, 0, len(o.Body)+8), o.Body...)
		for _, s := range [][]string{o.Enc[:cap(o.Enc)], o.Feat[:cap(o.Feat)]} {
			s[len(s)-1], s[len(s)-2] = "\x01spare", "\x01spare"
		}
	}
	for i := range offers {
		if len(offers[i].Feat) > 1 && r.Bool() {
			offers[i].Feat[0], offers[i].Feat[1] = offers[i].Feat[1], offers[i].Feat[0]
		}
	}
	n := len(offers)
	slice := make([]representation.Representation, n, n+3)
	for i, o := range offers {
		slice[i] = o
	}
	spare := &Rep{ID: -7, CT: "text/html", SQ: 1000, Body: []byte("r999|spare")}
	for i := n; i < cap(slice); i++ {
		slice[:cap(slice)][i] = spare
	}
	j := next()
	req := j.request()
	req.Header = spareHeader(req.Header)
	if r.P(30) {
		req.URL.User = nil
		req.URL.RawQuery, req.URL.Fragment = "q=1&a=b", "x"
	}
	c.Desc("%s", conf)
	c.Desc("job %s", j.key())
	describe(c, j.h, offers)
	reqBefore := requestSnapshot(req)
	hdr := req.Header
	url := req.URL
	var before []string
	for _, o := range offers {
		before = append(before, o.snapshot()+fmt.Sprintf("%q %q %q", o.Enc[:cap(o.Enc)], o.Feat[:cap(o.Feat)], o.Body[:cap(o.Body)]))
	}
	what := "negotiation"
	if r.P(25) && kind != "reactive" {
		// the algorithm alone.
		what = "the algorithm"
		c.Count("choose")
		var ch representation.Chooser = proactive.ApacheHTTPD()
		if kind == "transparent" {
			ch = transparent.RVSA1()
		}
		_, _ = ch.Choose(req, slice...)
	} else {
		rec := NewRecorder()
		rec.H = j.preset.Clone()
		o := negotiateOn(conf.build(nil, nil), rec, req, j.creation, slice)
		c.Count(outcomeName(o))
		if o.Panic != nil {
			c.Fail("%s\n%s", o.Short(), o.Stack)
		}
		c.Sample(map[string]any{"configuration": conf.String(), "request": headerString(j.h), "offered": n, "response": o.Short()})
	}
	c.Eval(1)
	c.Nontrivial(conf.String(), j.key(), offerKey(offers))
	if after := requestSnapshot(req); after != reqBefore {
		c.Fail("%s changed the request from %s to %s", what, reqBefore, after)
	}
	if err := spareIntact(hdr); err != nil {
		c.Fail("%s: %v", what, err)
	}
	if url != req.URL {
		c.Fail("%s replaced the URL of the request", what)
	}
	for i := range offers {
		if slice[i] != representation.Representation(offers[i]) {
			c.Fail("%s changed position %d of the offered slice", what, i)
		}
		if now := offers[i].snapshot() + fmt.Sprintf("%q %q %q", offers[i].Enc[:cap(offers[i].Enc)], offers[i].Feat[:cap(offers[i].Feat)], offers[i].Body[:cap(offers[i].Body)]); now != before[i] {
			c.Fail("%s changed a representation from %s to %s", what, before[i], now)
		}
	}
	for _, x := range slice[n:cap(slice)] {
		if x != representation.Representation(spare) {
			c.Fail("%s wrote behind the offered slice", what)
		}
	}
}

// withTwins adds requests that are easily mistaken for the given ones.
func withTwins(c *Case, jobs []job) []job {
	r := c.R
	if r.P(40) {
		prefix := longPrefix(r)
		for i := range jobs {
			jobs[i] = jobs[i].lengthened(prefix)
		}
		c.Count("common-prefix")
	}
	var all []job
	for _, j := range jobs {
		all = append(all, j)
		for k := r.Range(0, 2); k > 0; k-- {
			all = append(all, j.twin(r))
			c.Count("twin")
		}
	}
	return all
}

// c20History repeats negotiations in arbitrary order.
func c20History(c *Case) {
	r := c.R
	type one struct {
		kind  string
		conf  config
		neg   negotiator.Negotiator
		fresh []representation.Representation
		reps  []representation.Representation
		jobs  []job
		want  []string
	}
	var all []*one
	for k := r.Range(1, 3); k > 0; k-- {
		x := &one{kind: pickOf(r, "proactive", "transparent", "reactive")}
		c.Count("kind:" + x.kind)
		x.conf = genConfig(r, x.kind)
		x.neg = x.conf.build(nil, nil)
		offers, next := genOffer(r, x.kind, 20)
		for i, o := range offers {
			x.fresh = append(x.fresh, o.clone())
			x.reps = append(x.reps, o)
			if r.P(15) {
				_, again := libraryRep(r, i)
				x.fresh[i], x.reps[i] = again(), again()
			}
		}
		for q := r.Range(2, 5); q > 0; q-- {
			x.jobs = append(x.jobs, next())
		}
		x.jobs = withTwins(c, x.jobs)
		for _, j := range x.jobs {
			// the response from objects that were never used before.
			x.want = append(x.want, j.perform(x.conf.build(nil, nil), x.fresh).Sig())
		}
		c.Desc("%s offering %s", x.conf, offerKey(offers))
		all = append(all, x)
	}
	steps := r.Range(8, 24)
	var trace []string
	failed := false
	for s := 0; s < steps; s++ {
		x := pick(r, all)
		k := r.Intn(len(x.jobs))
		j := x.jobs[k]
		if r.P(15) {
			// a negotiation whose response can't be written.
			rec := NewRecorder()
			rec.FailAfter, rec.WriteErr = r.Intn(20), errors.New("connection reset")
			_ = negotiateOn(x.neg, rec, j.request(), j.creation, x.reps)
			trace = append(trace, "failing "+j.key())
			failed = true
			continue
		}
		if r.P(10) {
			// a negotiation in which one or all of them can't be serialized.
			var broken []*Rep
			one := r.Intn(len(x.reps))
			all := r.Bool()
			for i, rep := range x.reps {
				if rep, ok := rep.(*Rep); ok && (all || i == one) {
					rep.Err = errors.New("temporarily unavailable")
					broken = append(broken, rep)
				}
			}
			_ = j.perform(x.neg, x.reps)
			for _, rep := range broken {
				rep.Err = nil
			}
			if len(broken) > 0 {
				c.Count("serialization-failure")
			}
			trace = append(trace, "unserializable "+j.key())
			failed = true
			continue
		}
		if r.P(10) {
			// another offer.
			perm := shuffled(r, x.reps)
			_ = j.perform(x.neg, perm[:r.Range(0, len(perm))])
			trace = append(trace, "other offer "+j.key())
			continue
		}
		o := j.perform(x.neg, x.reps)
		c.Eval(1)
		c.Count("repeated")
		c.Count(outcomeName(o))
		if failed {
			c.Count("after-failure")
		}
		trace = append(trace, j.key())
		if got := o.Sig(); got != x.want[k] {
			for _, t := range trace {
				c.Desc("after %s", t)
			}
			c.Fail("the response depends on what was negotiated before: %s, but at first %s", short(got, 600), short(x.want[k], 600))
			return
		}
		c.Nontrivial(x.conf.String(), j.key(), strconv.Itoa(s))
	}
	c.Sample(map[string]any{"steps": steps, "negotiators": len(all)})
}

// c20Process performs a history of negotiations whose offers change, and
// compares some of its responses with those of processes of their own.
func c20Process(c *Case) {
	r := c.R
	type version struct {
		reps []representation.Representation
		jobs []job
	}
	var confs []config
	var versions [][]version
	kinds := shuffled(r, []string{"proactive", "transparent", "reactive"})[:r.Range(1, 2)]
	for _, kind := range kinds {
		conf := genConfig(r, kind)
		first, next := genOffer(r, kind, 12)
		var vs []version
		for n := r.Range(2, 4); n > 0; n-- {
			v := version{}
			if len(vs) > 0 && r.P(50) {
				// the same requests for other contents.
				v.jobs = append(v.jobs, vs[0].jobs...)
			} else {
				for k := r.Range(1, 3); k > 0; k-- {
					v.jobs = append(v.jobs, next())
				}
			}
			other, _ := genOffer(r, kind, 12)
			for i, o := range first {
				o = o.clone()
				switch r.Intn(4) {
				case 0:
					// other contents at the same location.
					o.Body = varyBody(r, uniqueBody(i, r.Range(10, 400)))
				case 1:
					// something else at the same location.
					loc := o.Loc
					o = pick(r, other).clone()
					o.ID, o.Loc = i, loc
					o.Body = uniqueBody(i, len(o.Body))
				case 2:
					o.SQ = r.Range(0, 1000)
					o.Lang, o.Charset = pick(r, langPool), pick(r, charsetPool)
				}
				v.reps = append(v.reps, o)
			}
			vs = append(vs, v)
		}
		confs = append(confs, conf)
		versions = append(versions, vs)
	}
	for _, vs := range versions {
		if r.P(60) {
			// all the requests, and their twins, for all of the versions.
			jobs := withTwins(c, vs[0].jobs)
			for i := range vs {
				if len(vs[i].jobs) > 0 && (i == 0 || r.Bool()) {
					vs[i].jobs = jobs
				}
			}
		}
	}
	steps := r.Range(6, 20)
	type step struct{ k, v, j int }
	var plan []step
	for s := 0; s < steps; s++ {
		k := r.Intn(len(confs))
		v := r.Intn(len(versions[k]))
		plan = append(plan, step{k, v, r.Intn(len(versions[k][v].jobs))})
	}
	// the same objects can have other contents every time.
	inPlace := r.Bool()
	live := make([][]representation.Representation, len(confs))
	perform := func(n negotiator.Negotiator, s step) Outcome {
		v := versions[s.k][s.v]
		reps := v.reps
		if inPlace {
			for i, rep := range v.reps {
				if live[s.k] == nil {
					live[s.k] = make([]representation.Representation, len(v.reps))
				}
				if live[s.k][i] == nil {
					live[s.k][i] = &Rep{}
				}
				a, b := live[s.k][i].(*Rep), rep.(*Rep)
				a.ID, a.Media, a.CT, a.Lang, a.Charset, a.Enc, a.Feat, a.FeatEls, a.SQ, a.Loc, a.Body =
					b.ID, b.Media, b.CT, b.Lang, b.Charset, b.Enc, b.Feat, b.FeatEls, b.SQ, b.Loc, b.Body
			}
			reps = live[s.k]
		}
		return v.jobs[s.j].perform(n, reps)
	}
	if s, ok := c.childStep(); ok {
		fmt.Print(perform(confs[plan[s].k].build(nil, nil), plan[s]).Sig())
		return
	}
	var negs []negotiator.Negotiator
	for _, conf := range confs {
		negs = append(negs, conf.build(nil, nil))
		c.Count("kind:" + conf.kind)
	}
	var trace []string
	if inPlace {
		c.Count("changed-in-place")
	}
	first := r.Intn(2)
	for i, s := range plan {
		o := perform(negs[s.k], s)
		c.Eval(1)
		c.Count(outcomeName(o))
		trace = append(trace, fmt.Sprintf("%s version %d: %s", confs[s.k].kind, s.v, versions[s.k][s.v].jobs[s.j].key()))
		if s.v > 0 {
			c.Count("changed-offer")
		}
		if i < len(plan)-3 && i != first {
			continue
		}
		c.Count("fresh-process")
		c.Nontrivial(strconv.FormatUint(c.Seed, 10), strconv.Itoa(i))
		if want, got := c.inFreshProcess(i), o.Sig(); got != want {
			for _, t := range trace {
				c.Desc("%s", t)
			}
			c.Desc("%s", confs[s.k])
			for _, rep := range versions[s.k][s.v].reps {
				c.Desc("offered %v", rep)
			}
			c.Fail("the response depends on what was negotiated before: %s, but in a process of its own %s", short(got, 700), short(want, 700))
			return
		}
	}
}

// c20Bytes keeps serialized representations and checks them again later.
func c20Bytes(c *Case) {
	r := c.R
	type kept struct {
		b    []byte
		copy string
		d    *rich
	}
	var docs []*rich
	var keep []kept
	metas := map[*rich]string{}
	first := map[*rich]string{}
	for i, n := 0, r.Range(2, 5); i < n; i++ {
		d, _ := libraryRep(r, i)
		docs = append(docs, d)
		metas[d] = metaOfRep(d) + d.value()
	}
	for s, steps := 0, r.Range(4, 12); s < steps; s++ {
		d := pick(r, docs)
		switch {
		case r.P(15):
			// a broken body.
			fresh := &rich{}
			fresh.SetContentType(d.ContentType())
			fresh.SetContentEncoding(d.ContentEncoding())
			_ = fresh.FromBytes(uniqueBody(1, r.Range(4, 100)))
		case r.P(15) && len(keep) > 0:
			k := pick(r, keep)
			fresh := &rich{}
			fresh.SetContentType(k.d.ContentType())
			fresh.SetContentEncoding(k.d.ContentEncoding())
			if err := fresh.FromBytes(k.b); err != nil {
				c.Fail("decoding failed: %v", err)
			}
			if got := fresh.value(); got != k.d.value() {
				c.Fail("decoded %s instead of %s", got, k.d.value())
			}
		case r.P(20):
			rec := NewRecorder()
			_ = negotiateOn(proactive.Default, rec, newRequest(resourceURL, http.Header{}), false, []representation.Representation{docs[0], d})
		default:
			b, err := d.Bytes()
			c.Eval(1)
			if err != nil {
				c.Fail("serialization failed: %v", err)
				return
			}
			if w, ok := first[d]; ok && w != string(b) {
				c.Fail("the bytes of a representation differ from those it had before")
			}
			first[d] = string(b)
			keep = append(keep, kept{b, string(b), d})
			c.Nontrivial(string(b), strconv.Itoa(s))
		}
		for _, k := range keep {
			c.Count("bytes-kept")
			if string(k.b) != k.copy {
				c.Fail("bytes returned by a representation changed afterwards, from %.80q to %.80q", k.copy, k.b)
				return
			}
		}
		for _, d := range docs {
			if now := metaOfRep(d) + d.value(); now != metas[d] {
				c.Fail("a representation changed from %s to %s", metas[d], now)
				return
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C21.

// metrics is a copy of the counters and the numbers of timer values.
type metrics map[string]int64

func snapshotMetrics(s tally.TestScope) metrics {
	m := metrics{}
	snap := s.Snapshot()
	for _, x := range snap.Counters() {
		m["counter "+metricName(x.Name(), x.Tags())] += x.Value()
	}
	for _, x := range snap.Timers() {
		m["timer "+metricName(x.Name(), x.Tags())] += int64(len(x.Values()))
	}
	for _, x := range snap.Gauges() {
		m["gauge "+metricName(x.Name(), x.Tags())]++
	}
	for _, x := range snap.Histograms() {
		for _, v := range x.Values() {
			m["histogram "+metricName(x.Name(), x.Tags())] += v
		}
		for _, v := range x.Durations() {
			m["histogram "+metricName(x.Name(), x.Tags())] += v
		}
	}
	return m
}

func metricName(name string, tags map[string]string) string {
	var kv []string
	for k, v := range tags {
		kv = append(kv, k+"="+v)
	}
	sort.Strings(kv)
	return name + "{" + strings.Join(kv, ",") + "}"
}

func (m metrics) minus(o metrics) metrics {
	d := metrics{}
	for k, v := range m {
		if v != o[k] {
			d[k] = v - o[k]
		}
	}
	return d
}

func (m metrics) String() string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s %+d", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// expectedMetrics is what one negotiation must add.
func expectedMetrics(kind, prefix, tags string, o Outcome) metrics {
	name := func(s string) string {
		t := "negotiator=" + kind
		if tags != "" {
			all := []string{tags, t}
			sort.Strings(all)
			t = strings.Join(all, ",")
		}
		return prefix + s + "{" + t + "}"
	}
	m := metrics{"timer " + name("negotiate"): 1}
	if o.Err != nil {
		m["counter "+name("negotiate.error")] = 1
		return m
	}
	c := map[string]string{
		"proactive200": "acceptable", "proactive201": "acceptable", "proactive204": "no_content", "proactive406": "not_acceptable",
		"reactive300": "multiple_choices", "reactive204": "no_content",
	}[kind+strconv.Itoa(o.StatusCode())]
	if c != "" {
		m["counter "+name("negotiate."+c)] = 1
	}
	return m
}

// checkLog judges the log entries of one negotiation.
func checkLog(entries []observer.LoggedEntry, o Outcome) error {
	var completed []observer.LoggedEntry
	for _, e := range entries {
		if _, ok := e.ContextMap()["status"]; ok && e.Level == zapcore.InfoLevel {
			completed = append(completed, e)
		}
	}
	if o.Err != nil {
		if len(completed) > 0 {
			return fmt.Errorf("negotiation failed, but a completed response was logged: %q %v", completed[0].Message, completed[0].ContextMap())
		}
		return nil
	}
	if len(completed) != 1 {
		return fmt.Errorf("%d completed responses were logged for one response", len(completed))
	}
	m := completed[0].ContextMap()
	for k, v := range m {
		switch k {
		case "status":
			if fmt.Sprint(v) != strconv.Itoa(o.StatusCode()) {
				return fmt.Errorf("status %v was logged for a response with status %d", v, o.StatusCode())
			}
		case "content-length", "content-type", "content-encoding", "content-language", "content-charset", "content-location", "alternates", "tcn":
			got := headerValues(o.Header, k)
			// the application can have set the header as well.
			if len(got) == 0 || got[len(got)-1] != fmt.Sprint(v) {
				return fmt.Errorf("%s %q was logged for a response with %q", k, fmt.Sprint(v), got)
			}
		}
	}
	return nil
}

type c21Target struct {
	kind    string
	conf    config
	neg     negotiator.Negotiator
	offers  []*Rep
	next    func() job
	scope   tally.TestScope
	prefix  string
	tags    string
	logs    *observer.ObservedLogs
	isolate bool
	inj     *injector
}

func c21Targets(c *Case, n int) []*c21Target {
	r := c.R
	var all []*c21Target
	for k := 0; k < n; k++ {
		t := &c21Target{kind: pickOf(r, "proactive", "transparent", "reactive")}
		t.conf = genConfig(r, t.kind)
		if len(all) > 0 && r.P(60) {
			p := pick(r, all)
			t.scope, t.prefix, t.tags = p.scope, p.prefix, p.tags
			c.Count("shared-scope")
		} else {
			prefix := pickOf(r, "", "app", "svc.x")
			tags := pickOf(r, map[string]string{}, map[string]string{"env": "test"})
			t.scope = tally.NewTestScope(prefix, tags)
			if prefix != "" {
				t.prefix = prefix + "."
			}
			for k, v := range tags {
				t.tags = k + "=" + v
			}
		}
		core, logs := observer.New(pickOf(r, zapcore.DebugLevel, zapcore.InfoLevel))
		t.logs = logs
		if r.P(40) && !t.conf.def {
			// lists whose serialization can fail.
			if len(t.conf.lists) == 0 {
				t.conf.lists = []string{"application/json"}
			}
			t.conf.wrap = func(l representation.ListConstructor) representation.ListConstructor {
				return func(reps ...representation.Representation) representation.Representation {
					if t.inj == nil {
						return l(reps...)
					}
					return &faultyRep{l(reps...), t.inj, "list-bytes"}
				}
			}
			c.Count("list-may-fail")
		}
		t.neg = t.conf.build(zap.New(core), t.scope)
		t.offers, t.next = genOffer(r, t.kind, 14)
		if r.P(15) {
			for _, w := range t.offers {
				if r.Bool() {
					w.Body = []byte{}
				}
			}
			c.Count("empty-bodies")
		}
		c.Desc("%s offering %s", t.conf, offerKey(t.offers))
		all = append(all, t)
	}
	return all
}

func c21Sequence(c *Case) {
	r := c.R
	all := c21Targets(c, r.Range(1, 3))
	for s, steps := 0, r.Range(3, 12); s < steps; s++ {
		t := pick(r, all)
		j := t.next()
		reps := make([]representation.Representation, len(t.offers))
		fault := r.Intn(8)
		inj := &injector{err: errors.New("injected")}
		if fault == 0 {
			inj.failAt = r.Range(1, 6)
		}
		for i, o := range t.offers {
			reps[i] = &faultyRep{o, inj, "bytes"}
		}
		t.inj = nil
		if fault == 0 {
			t.inj = inj
			if r.Bool() {
				// only the list can fail.
				reps = asReps(t.offers)
			}
		}
		switch fault {
		case 1:
			reps = nil
		case 2:
			j.h = hostileHeader(r)
		}
		rec := NewRecorder()
		rec.H = j.preset.Clone()
		if fault == 3 {
			rec.FailAfter, rec.WriteErr = r.Intn(20), errors.New("connection reset")
			if r.P(30) {
				rec.FailAfter = 1 << 20
			}
		}
		t.logs.TakeAll()
		before := map[tally.TestScope]metrics{}
		for _, x := range all {
			before[x.scope] = snapshotMetrics(x.scope)
		}
		o := negotiateOn(t.neg, rec, j.request(), j.creation, reps)
		c.Eval(1)
		if o.Panic != nil {
			c.Fail("%s\n%s", o.Short(), o.Stack)
			return
		}
		name := t.kind + ":" + strings.TrimPrefix(outcomeName(o), "status:")
		c.Count(name)
		for _, site := range inj.triggered {
			c.Count("failed:" + site)
		}
		if o.WriteErr {
			c.Count("write-error")
		}
		c.Nontrivial(name, j.key(), offerKey(t.offers))
		want := expectedMetrics(t.kind, t.prefix, t.tags, o)
		for sc, b := range before {
			w := metrics{}
			if sc == t.scope {
				w = want
			}
			if diff := snapshotMetrics(sc).minus(b); diff.String() != w.String() {
				c.Desc("step %d: %s", s, j.key())
				c.Fail("%s answered %s and recorded [%s], want [%s]", t.kind, o.Short(), diff, w)
				return
			}
		}
		if err := checkLog(t.logs.TakeAll(), o); err != nil {
			c.Desc("step %d: %s", s, j.key())
			c.Fail("%s answered %s: %v", t.kind, o.Short(), err)
			return
		}
		c.Sample(map[string]any{"kind": t.kind, "request": headerString(j.h), "response": o.Short(), "recorded": want.String()})
	}
}

// c21Concurrent compares totals.
func c21Concurrent(c *Case) {
	r := c.R
	all := c21Targets(c, r.Range(1, 3))
	start := map[tally.TestScope]metrics{}
	want := map[tally.TestScope]metrics{}
	for _, t := range all {
		start[t.scope] = snapshotMetrics(t.scope)
		want[t.scope] = metrics{}
		t.logs.TakeAll()
	}
	type work struct {
		t *c21Target
		j job
		o Outcome
	}
	goroutines, each := r.Range(2, 8), r.Range(2, 6)
	jobs := make([][]work, goroutines)
	for g := range jobs {
		for i := 0; i < each; i++ {
			t := pick(r, all)
			jobs[g] = append(jobs[g], work{t: t, j: t.next()})
		}
	}
	together(r, goroutines, each, func(g, i int, _ *Rand) {
		w := &jobs[g][i]
		w.o = w.j.perform(w.t.neg, asReps(w.t.offers))
	})
	completed := map[*c21Target]map[string]int{}
	for _, t := range all {
		completed[t] = map[string]int{}
	}
	for _, ws := range jobs {
		for _, w := range ws {
			c.Eval(1)
			if w.o.Panic != nil {
				c.Fail("%s\n%s", w.o.Short(), w.o.Stack)
				return
			}
			for k, v := range expectedMetrics(w.t.kind, w.t.prefix, w.t.tags, w.o) {
				want[w.t.scope][k] += v
			}
			if w.o.Err == nil {
				completed[w.t][strconv.Itoa(w.o.StatusCode())]++
			}
		}
	}
	for sc, b := range start {
		if diff := snapshotMetrics(sc).minus(b); diff.String() != want[sc].String() {
			c.Fail("concurrent negotiations recorded [%s], want [%s]", diff, want[sc])
		}
	}
	for _, t := range all {
		got := map[string]int{}
		for _, e := range t.logs.TakeAll() {
			if s, ok := e.ContextMap()["status"]; ok && e.Level == zapcore.InfoLevel {
				got[fmt.Sprint(s)]++
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(completed[t]) {
			c.Fail("concurrent negotiations logged the statuses %v, want %v", got, completed[t])
		}
	}
	c.Nontrivial(fmt.Sprint(c.Idx))
}

// slowRep takes its time to be serialized.
type slowRep struct {
	representation.Representation
	d time.Duration
}

func (s *slowRep) Bytes() ([]byte, error) {
	time.Sleep(s.d)
	return s.Representation.Bytes()
}

// c21Duration checks that the recorded duration covers the negotiation.
func c21Duration(c *Case) {
	r := c.R
	kind := pickOf(r, "proactive", "transparent", "reactive")
	scope := tally.NewTestScope("", nil)
	const least = 3 * time.Millisecond
	slowList := func(reps ...representation.Representation) representation.Representation {
		return &slowRep{listConstructor("application/json", "en", 1)(reps...), least}
	}
	var neg negotiator.Negotiator
	switch kind {
	case "proactive":
		neg = proactive.New(proactive.Scope(scope), proactive.Representations(slowList), proactive.DefaultRepresentation(slowList))
	case "reactive":
		neg = reactive.New(reactive.Scope(scope), reactive.Representation(slowList))
	default:
		neg = transparent.New(transparent.Scope(scope), transparent.ListRepresentation(slowList))
	}
	rep := &slowRep{&Rep{CT: "text/html", SQ: 1000, Body: uniqueBody(0, 10), Loc: *mustURL("http://example.com/r/0")}, least}
	h := http.Header{"Accept": {pickOf(r, "text/html", "image/png")}, "Negotiate": {pickOf(r, "*", "trans")}}
	rec := NewRecorder()
	if r.P(30) {
		rec.FailAfter, rec.WriteErr = 0, errors.New("connection reset")
	}
	from := time.Now()
	o := negotiateOn(neg, rec, newRequest(resourceURL, h), false, []representation.Representation{rep})
	elapsed := time.Since(from)
	c.Eval(1)
	c.Count("timed")
	c.Nontrivial(kind, headerString(h), o.Short())
	c.Desc("%s, %s, answered %s", kind, headerString(h), o.Short())
	n := 0
	for _, t := range scope.Snapshot().Timers() {
		for _, d := range t.Values() {
			n++
			if d < least || d > elapsed {
				c.Fail("a negotiation that took between %v and %v was recorded with a duration of %v", least, elapsed, d)
			}
		}
	}
	if n != 1 {
		c.Fail("%d durations were recorded", n)
	}
}
