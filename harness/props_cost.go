package main

import (
	"fmt"
	"net/http"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

func init() {
	register(&Property{
		ID:     "C31",
		Enough: 2,
		Rule: "the processor time and the bytes allocated by a negotiation, a choice, a serialization or a deserialization are measured with requests, offers and contents of 1, 2, 4, 8, … times a size, " +
			"the calls of Bytes are counted per representation. Non-trivial: distinct by what grows, how it is spelled and who is asked.",
		Subs: []Sub{
			{Name: "request", Quick: 240, Thorough: 240, Serial: true, Run: c31Request},
			{Name: "runs", Quick: 6 * len(runs), Thorough: 10 * len(runs), Serial: true, Run: c31Runs},
			{Name: "offer", Quick: 96, Thorough: 96, Serial: true, Run: c31Offer},
			{Name: "content", Quick: 24, Thorough: 36, Serial: true, Run: c31Content},
			{Name: "calls", Quick: 3000, Thorough: 40000, Run: c31Calls},
		},
		MinEvents: []string{"measured", "header:Accept", "header:Accept-Language", "header:Accept-Charset", "header:Accept-Encoding", "header:Accept-Features", "header:Negotiate",
			"kind:proactive", "kind:transparent", "kind:reactive", "kind:choose", "offer:many", "content:serialize", "content:deserialize", "content:refused", "calls:counted"},
	})
}

// cpuTime is the processor time of this process.
func cpuTime() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 2, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		panic(harnessError("clock_gettime: " + e.Error()))
	}
	return time.Duration(ts.Nano())
}

// cost is what an execution took.
type cost struct {
	N     int           `json:"n"`
	CPU   time.Duration `json:"cpu_ns"`
	Alloc uint64        `json:"bytes_allocated"`
}

func (c cost) String() string {
	return fmt.Sprintf("%d: %v, %d KB allocated", c.N, c.CPU.Round(time.Microsecond), c.Alloc>>10)
}

// costOf measures the cheapest of some executions, without garbage collection.
func costOf(n, times int, f func()) cost {
	old := debug.SetGCPercent(-1)
	limit := debug.SetMemoryLimit(6 << 30)
	defer func() {
		debug.SetGCPercent(old)
		debug.SetMemoryLimit(limit)
		runtime.GC()
	}()
	best := cost{N: n, CPU: 1 << 62}
	var total time.Duration
	for k := 0; k < times && total < 1500*time.Millisecond; k++ {
		runtime.GC()
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		t := cpuTime()
		f()
		d := cpuTime() - t
		runtime.ReadMemStats(&after)
		total += d
		if d < best.CPU {
			best.CPU = d
		}
		if a := after.TotalAlloc - before.TotalAlloc; k == 0 || a < best.Alloc {
			best.Alloc = a
		}
	}
	return best
}

// disproportionate compares the cost of something with the cost of something
// eight times as large: what is proportional costs eight times as much, what is
// quadratic 64 times.
func disproportionate(small, large cost) string {
	// what is refused at once when it is short need not be when it is long, and
	// regular expressions are evaluated differently.
	if large.Alloc > 20*small.Alloc+1<<20+64*uint64(large.N) {
		return fmt.Sprintf("%d times as many bytes are allocated", large.Alloc/(small.Alloc+1))
	}
	if large.CPU > 28*small.CPU+50*time.Millisecond+time.Duration(100*large.N) {
		return fmt.Sprintf("%d times the time is spent", large.CPU/(small.CPU+1))
	}
	return ""
}

// grow measures what an execution costs, with ever larger input, up to a size
// or until it costs enough to tell. prepare makes an input of a size and
// provides what to do with it.
func grow(c *Case, first, last int, prepare func(n int) func()) []cost {
	var costs []cost
	for n := first; n <= last; n *= 2 {
		costs = append(costs, costOf(n, 1, prepare(n)))
		c.Eval(1)
		c.Count("measured")
		k := len(costs) - 1
		if k < 3 {
			continue
		}
		// measurements are only believed when they repeat.
		what := disproportionate(costs[k-3], costs[k])
		for again := 0; what != "" && again < 3; again++ {
			small := costOf(costs[k-3].N, 3, prepare(costs[k-3].N))
			large := costOf(n, 3, prepare(n))
			what = disproportionate(small, large)
			costs[k-3], costs[k] = small, large
		}
		if what != "" {
			c.Fail("the cost is out of proportion: with an input that is 8 times as large, %s (%v; %v)", what, costs[k-3], costs[k])
			break
		}
		enough := 200 * time.Millisecond
		if c.Thorough {
			enough = 600 * time.Millisecond
		}
		if costs[k].CPU > enough && k >= 4 {
			break
		}
	}
	c.Count(fmt.Sprintf("grown:%d-fold", costs[len(costs)-1].N/first))
	return costs
}

// big is how a header grows.
type big struct {
	name   string
	header string
	unit   func(i int) string // the i-th element.
	sep    string
	prefix string
	suffix string
}

func (b big) value(n int) []string {
	var s strings.Builder
	s.WriteString(b.prefix)
	var lines []string
	size := 0
	for i := 0; size < n; i++ {
		u := b.unit(i)
		if b.sep == "\n" {
			lines = append(lines, u)
			size += len(u) + 2
			continue
		}
		if i > 0 {
			s.WriteString(b.sep)
		}
		s.WriteString(u)
		size += len(u) + len(b.sep)
	}
	if b.sep == "\n" {
		return lines
	}
	s.WriteString(b.suffix)
	return []string{s.String()}
}

// letters is the i-th word of exactly n letters.
func letters(i, n int) string {
	b := make([]byte, n)
	for k := n - 1; k >= 0; k-- {
		b[k] = byte('a' + i%26)
		i /= 26
	}
	return string(b)
}

var costHeaders = []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Accept-Features", "Negotiate"}

// runs are what a header field can be full of.
var runs = []string{",", ";", " ", "\t", ", ", ";,", "=", "\"", "(", "[", "\\", "\x00", "\xff", ";q=", ";q=1", ";+", ",,;", "*", "-", "/", "+", "!", "0", "a", "1-", "[]", "\\\"", "%", "\u00e9"}

// bigHeader generates how a header grows, in the k-th of many ways: every kind
// of element comes with elements that differ first.
func bigHeader(r *Rand, header string, k int) big {
	b := big{header: header, sep: pickOf(r, ",", ",", ", ", " ,\t", "\n")}
	mod := pickOf(r, 1<<30, 1<<30, 1, 7, 300) // how many different ones.
	shape := r.Intn(9)
	if k < 6 {
		mod, shape = 1<<30, 0
	} else if k < 12 {
		shape = k - 3
	}
	id := func(i int) string { return letters(i%mod, 5) }
	var el func(i int) string
	switch header {
	case "Accept":
		switch k % 4 {
		case 0:
			el = func(i int) string { return "text/" + id(i) }
		case 1:
			el = func(i int) string { return id(i) + "/*" }
		case 2:
			el = func(i int) string { return "text/html;level=" + fmt.Sprint(i%mod+1) }
		case 3:
			el = func(i int) string { return "text/html;p" + id(i) + "=" + id(i) }
		}
	case "Accept-Language":
		switch k % 3 {
		case 0:
			el = func(i int) string { return "en-" + id(i) }
		case 1:
			el = func(i int) string { return letters(i%mod, 2) }
		case 2:
			el = func(i int) string { return "en-x-" + id(i) }
		}
	case "Accept-Charset", "Accept-Encoding":
		el = id
	case "Accept-Features":
		switch k % 6 {
		case 0:
			el = id
		case 1:
			el = func(i int) string { return "!" + id(i) }
		case 2:
			el = func(i int) string { return id(i) + "=" + id(i+1) }
		case 3:
			el = func(i int) string { return id(i) + "!=" + id(i+1) }
		case 4:
			// one feature with ever more values.
			el = func(i int) string { return pickOf(NewRand(uint64(i)), "x=", "x!=") + id(i) }
		case 5:
			el = func(i int) string { return fmt.Sprintf("x=[%d-%d]", i%mod, i%mod+3) }
		}
	case "Negotiate":
		switch k % 3 {
		case 0:
			el = id
		case 1:
			el = func(i int) string { return fmt.Sprintf("%d.%d", i%mod, i%10) }
		case 2:
			el = func(i int) string { return pickOf(NewRand(uint64(i)), "trans", "vlist", "guess-small", "*", "1.0") }
		}
	}
	b.name = "elements"
	b.unit = el
	weighted := header != "Accept-Features" && header != "Negotiate"
	switch shape {
	case 0, 1, 2:
	case 3:
		if weighted {
			b.name = "weighted"
			b.unit = func(i int) string { return el(i) + fmt.Sprintf(";q=0.%03d", 1+i*7%999) }
		}
	case 4:
		b.name = "parameters"
		b.prefix, b.sep = el(0), ""
		if weighted {
			b.prefix += ";q=0.5"
		}
		b.unit = func(i int) string { return ";p" + id(i) + "=" + pickOf(NewRand(uint64(i)), "1", `"x\"y"`, `""`) }
	case 5:
		// one element without end.
		b.name = "long-token"
		b.prefix, b.sep = el(0)+pickOf(r, "", ";a=", "="), ""
		if r.P(50) {
			b.prefix = ""
		}
		u := pickOf(r, "a", "-", "en-", "a/", "x.", "0", "9", "*")
		b.unit = func(i int) string { return u }
		b.suffix = pickOf(r, "", "", ",", "/b", ", "+el(1))
	case 6:
		// nothing but separators.
		b.name = "run"
		b.prefix, b.sep = pickOf(r, "", el(0)), ""
		u := pick(r, runs)
		b.unit = func(i int) string { return u }
		b.suffix = pickOf(r, "", "x", "\"", el(1))
	case 7:
		// a quoted string without end.
		b.name = "quoted"
		b.prefix, b.sep = el(0)+pickOf(r, ";a=\"", "=\"", "\""), ""
		u := pickOf(r, `\"`, ",", "a", `\\`, `;`, " ", `",a="`, `\`)
		b.unit = func(i int) string { return u }
		b.suffix = pickOf(r, "", "\"", "\", "+el(1))
	case 8:
		if header == "Accept-Features" {
			// features with ever more improvements, or in ever more brackets.
			b.name = "bag"
			switch r.Intn(3) {
			case 0:
				b.prefix, b.sep = el(0), ""
				b.unit = func(i int) string { return ";+" + fmt.Sprint(i%9) }
			case 1:
				b.prefix, b.sep, b.suffix = "[", " ", "]"
			case 2:
				b.sep = ""
				b.unit = func(i int) string { return pickOf(r, "[", "{", "]") }
			}
			break
		}
		// garbage between elements.
		b.name = "garbage"
		g := pickOf(r, ";", ";q", ";q=x", "\"", "//", "=", " b", "\x7f")
		b.unit = func(i int) string { return el(i) + g }
	}
	return b
}

func costRequest(n int, bigs []big) job {
	h := http.Header{}
	for _, b := range bigs {
		h[b.header] = append(h[b.header], b.value(n/len(bigs))...)
	}
	return job{h: h, target: resourceURL, method: "GET"}
}

// asker is what is asked with ever larger inputs.
type asker struct {
	kind string
	name string
	ask  func(j job, reps []representation.Representation) Outcome
}

func genAsker(r *Rand, offers int, kinds ...string) asker {
	kind := pick(r, kinds)
	if kind == "apache" || kind == "rvsa" {
		chooser, name := representation.Chooser(proactive.ApacheHTTPD()), "choose:apache"
		if kind == "rvsa" {
			chooser, name = transparent.RVSA1(), "choose:rvsa"
		}
		return asker{"choose", name, func(j job, reps []representation.Representation) Outcome {
			return observe(NewRecorder(), func() error { _, err := chooser.Choose(j.request(), reps...); return err })
		}}
	}
	cfg := genConfig(r, kind)
	cfg.maxSize, cfg.def = pickOf(r, 10, offers+1, offers+1, offers+1), cfg.def && kind != "transparent"
	n := cfg.build(nil, nil)
	return asker{kind, cfg.String(), func(j job, reps []representation.Representation) Outcome {
		rec := NewRecorder()
		return observe(rec, func() error {
			return n.Negotiate(negotiator.NegotiationContext{Request: j.request(), ResponseWriter: rec, IsCreation: j.creation}, reps...)
		})
	}}
}

func c31Request(c *Case) {
	r := c.R
	// every header has its turn.
	header := costHeaders[c.Idx%len(costHeaders)]
	bigs := []big{bigHeader(r, header, c.Idx/len(costHeaders))}
	if r.P(12) {
		for _, h := range shuffled(r, costHeaders)[:r.Range(1, 5)] {
			bigs = append(bigs, bigHeader(r, h, r.Intn(1000)))
		}
	}
	offers, next := genOffer(r, pickOf(r, "proactive", "transparent"), r.Range(1, 8))
	kinds := []string{"proactive", "transparent", "rvsa", "apache"}
	switch header {
	case "Accept-Features":
		kinds = []string{"transparent", "rvsa"}
	case "Negotiate":
		kinds = []string{"transparent"}
	}
	if r.P(8) {
		kinds = []string{"reactive", "proactive"}
	}
	a := genAsker(r, 100, kinds...)
	base := next()
	base.method, base.ctx = "GET", nil
	if header != "Negotiate" && r.P(90) {
		base.h["Negotiate"] = []string{pickOf(r, "*", "*", "1.0", "1.0", "trans")}
	}
	if r.P(90) {
		// what is offered has all kinds of metadata, so that it all counts.
		if len(offers) == 0 {
			offers = append(offers, newGen(r).rep(0))
		}
		for _, o := range offers {
			if len(o.Feat) == 0 {
				o.Feat, o.FeatEls = []string{pickOf(r, "tables", "!tables", "x=aaaaa", "x!=5;+1.2-0.3", "x=[1-9]", "[a=1 !b x=5];+2", "aaaab", "!aaaac;-0.5")}, nil
			}
			if o.Lang == "" {
				o.Lang = pickOf(r, "en", "en-US", "de")
			}
			if o.Charset == "" {
				o.Charset = pickOf(r, "utf-8", "aaaaa")
			}
			if len(o.Enc) == 0 && r.Bool() {
				o.Enc = []string{pickOf(r, "gzip", "aaaab")}
			}
			if o.ContentType() == "" {
				o.CT = pickOf(r, "text/html;level=3", "text/plain", "text/aaaaa;a=\"b\"")
			}
		}
	}
	growHeader(c, a, base, offers, bigs)
}

// growHeader judges what is asked with header fields that grow.
func growHeader(c *Case, a asker, base job, offers []*Rep, bigs []big) {
	var names []string
	for _, b := range bigs {
		names = append(names, b.header+":"+b.name)
		c.Count("header:" + b.header)
		c.Count("shape:" + b.name)
		delete(base.h, b.header)
	}
	c.Count("kind:" + a.kind)
	c.Desc("%v grows; asked: %s", names, a.name)
	describe(c, base.h, offers)
	for _, b := range bigs {
		v := strings.Join(b.value(60), "\n")
		c.Desc("%s like %q", b.header, v[:min(len(v), 200)])
	}
	last := 512 << 10
	if c.Thorough {
		last = 4 << 20
	}
	var o Outcome
	costs := grow(c, 4<<10, last, func(n int) func() {
		j := base
		j.h = base.h.Clone()
		for k, v := range costRequest(n, bigs).h {
			j.h[k] = v
		}
		reps := asReps(offers)
		return func() { o = a.ask(j, reps) }
	})
	c.Count("outcome:" + outcomeName(o))
	c.Nontrivial(strings.Join(names, "+"), a.kind, bigs[0].value(60)[0])
	c.Sample(map[string]any{"grows": names, "asked": a.name, "costs": costs})
}

// c31Runs fills each header field with each kind of run, at its beginning,
// after an element and before one.
func c31Runs(c *Case) {
	r := c.R
	header := costHeaders[c.Idx%len(costHeaders)]
	u := runs[c.Idx/len(costHeaders)%len(runs)]
	el := bigHeader(r, header, r.Intn(6)).unit(0)
	b := big{header: header, name: "run", unit: func(int) string { return u }}
	b.prefix = pickOf(r, "", el, el, el+"=", el+";a=", el+";q=0.", el+";q=", el+`;a="`)
	b.suffix = pickOf(r, "", "", el, ","+el, `"`)
	kinds := []string{"proactive", "transparent", "rvsa", "apache"}
	switch header {
	case "Accept-Features":
		kinds = []string{"transparent", "rvsa"}
	case "Negotiate":
		kinds = []string{"transparent"}
	case "Accept-Encoding":
		kinds = []string{"proactive", "apache"}
	}
	offers := []*Rep{
		{ID: 0, CT: "text/html;level=3", Lang: "en-US", Charset: "utf-8", Enc: []string{"gzip"}, Feat: []string{"tables", "x=5;+1.2-0.3", "[a !b y=[1-9]];-0.4"}, SQ: 900, Loc: *mustURL("http://example.com/r/0"), Body: uniqueBody(0, 30)},
		{ID: 1, CT: "text/plain", Lang: "de", Charset: "iso-8859-1", Feat: []string{"!tables"}, SQ: 800, Loc: *mustURL("http://example.com/r/1"), Body: uniqueBody(1, 30)},
	}
	base := job{h: http.Header{}, target: resourceURL, method: "GET"}
	if header != "Negotiate" {
		base.h["Negotiate"] = []string{"*"}
	}
	growHeader(c, genAsker(r, 100, kinds...), base, offers, []big{b})
}

func c31Offer(c *Case) {
	r := c.R
	what := []string{"many", "features", "many", "values", "many", "location", "codings", "type"}[c.Idx%8]
	c.Count("offer:" + what)
	first, last := 128, 4096
	if c.Thorough {
		last = 16384
	}
	kinds := []string{"transparent", "proactive", "rvsa", "apache", "transparent", "reactive"}
	a := genAsker(r, 2*last, kinds[c.Idx/8%len(kinds)])
	c.Count("kind:" + a.kind)
	_, next := genOffer(r, pickOf(r, "proactive", "transparent"), 1)
	base := next()
	base.method, base.ctx = "GET", nil
	// anything that is offered is acceptable, some more than others.
	ranked := c.Idx%4 == 0
	if ranked {
		base.h = http.Header{}
	}
	if r.P(70) || a.kind == "transparent" {
		base.h["Negotiate"] = []string{pickOf(r, "*", "1.0", "trans", "vlist")}
	}
	if what == "features" || what == "values" || r.P(30) {
		base.h["Accept-Features"] = renderFeatureList(r, genFeatureList(r))
	}
	c.Desc("%s grows; asked: %s", what, a.name)
	describe(c, base.h, nil)
	gseed := r.U64()
	same := r.P(25) // all the same but for their locations.
	shift := r.Intn(1000)
	costs := grow(c, first, last, func(n int) func() {
		g := newGen(NewRand(gseed))
		g.AnyFeatures = true
		var reps []*Rep
		count := 3
		if what == "many" {
			count = n
		}
		for i := 0; i < count; i++ {
			rep := g.rep(i)
			if same && i > 0 {
				rep = reps[0].clone()
				rep.ID = i
			}
			rep.Loc = *mustURL(fmt.Sprintf("http://example.com/r/%d", i))
			rep.Body = uniqueBody(i, 20+i%30)
			if ranked {
				rep.SQ = 1000 * i / n
			}
			rep.Err, rep.FailFrom = nil, 0
			for k := 0; k < n; k++ {
				id := letters(k+shift, 4)
				switch what {
				case "features":
					rep.Feat = append(rep.Feat, []string{id, "!" + id, id + "=1", id + "!=" + id, id + ";+0.9", "[" + id + " b]"}[(k+shift)%6])
				case "values":
					rep.Feat = append(rep.Feat, []string{"x=", "x!=", "!x=", "x=1;+0.5-"}[i%3]+id)
				case "codings":
					rep.Enc = append(rep.Enc, id)
				}
			}
			switch what {
			case "location":
				rep.Loc = *mustURL("http://example.com/r/" + strings.Repeat(pickOf(NewRand(gseed), "a", "a/", "../", "%2F", "./"), 8*n))
			case "type":
				rep.CT = "text/html" + strings.Repeat(pickOf(NewRand(gseed), ";a=b", ";", " ", "\"", ";a=\"b\""), 8*n)
			}
			reps = append(reps, rep)
		}
		rs := asReps(reps)
		j := base
		j.h = base.h.Clone()
		return func() { a.ask(j, rs) }
	})
	c.Nontrivial(what, a.name, headerString(base.h))
	c.Sample(map[string]any{"grows": what, "asked": a.name, "costs": costs})
}

func c31Content(c *Case) {
	r := c.R
	mt := pick(r, []string{"application/json", "application/xml", "application/yaml"})
	codings := genCodings(r, 2)
	what := []string{"serialize", "deserialize", "refused"}[c.Idx%3]
	c.Count("content:" + what)
	c.Count("type:" + mt)
	c.Desc("%s: %s in %v", what, mt, codings)
	gseed := r.U64()
	shape := r.Intn(4)
	garbage := pickOf(r, "[", "{", "<a>", "- ", "\"", " ", "\x00", "\x1f\x8b", "a: ", "&", "[[", "{\"a\":")
	last := 1 << 20
	if c.Thorough {
		last = 8 << 20
	}
	costs := grow(c, 8<<10, last, func(n int) func() {
		g := NewRand(gseed)
		d := &rich{Title: "t"}
		switch shape {
		case 0:
			d.Title = strings.Repeat("abc ", n/4)
		case 1:
			for k := 0; k < n/20; k++ {
				d.Lines = append(d.Lines, letters(g.Intn(1<<30), 12))
			}
		case 2:
			for k := 0; k < n/30; k++ {
				d.Nested = append(d.Nested, part{letters(k, 6), k})
			}
		case 3:
			b := make([]byte, n)
			for k := range b {
				b[k] = byte(' ' + g.Intn(90))
			}
			d.Title = string(b)
		}
		d.SetContentType(mt)
		d.SetContentEncoding(codings)
		if what == "serialize" {
			return func() {
				if _, err := d.Bytes(); err != nil {
					c.Fail("serialization failed: %v", err)
				}
			}
		}
		b, err := d.Bytes()
		if err != nil {
			c.Fail("serialization failed: %v", err)
			return func() {}
		}
		if what == "refused" {
			switch shape {
			case 0:
				b = b[:len(b)-1-g.Intn(8)]
			case 1:
				b = []byte(strings.Repeat(letters(gInt(gseed), 1), n))
			default:
				// garbage that is well encoded. What the parsers of the
				// standard library and of YAML make of it is up to them.
				b = encodeAll(codings, []byte(strings.Repeat("x", 10)+strings.Repeat(" ", n)))
				if mt != "application/yaml" {
					b = encodeAll(codings, []byte(strings.Repeat(garbage, min(n/len(garbage), 5000))+strings.Repeat(" ", n)))
				}
			}
		}
		return func() {
			var back rich
			back.SetContentType(mt)
			back.SetContentEncoding(codings)
			err := back.FromBytes(b)
			if what == "deserialize" && err != nil {
				c.Fail("deserialization failed: %v", err)
			}
		}
	})
	c.Nontrivial(what, mt, strings.Join(codings, ","), fmt.Sprint(shape))
	c.Sample(map[string]any{"what": what, "type": mt, "codings": codings, "costs": costs})
}

func gInt(seed uint64) int { return int(seed % 26) }

// mostCalls is how often a representation is serialized at most for a
// negotiation, however large the request and the offer are.
const mostCalls = 8

func c31Calls(c *Case) {
	r := c.R
	kind := pickOf(r, "proactive", "transparent", "reactive", "choose")
	nk := kind
	if kind == "choose" {
		nk = pickOf(r, "proactive", "transparent")
	}
	offers, next := genOffer(r, nk, 40)
	if r.P(30) && len(offers) > 0 {
		// those that can't be told apart by their metadata.
		for n := r.Range(2, 120); len(offers) < n; {
			o := offers[r.Intn(len(offers))].clone()
			o.ID = len(offers)
			o.Loc = *mustURL(fmt.Sprintf("http://example.com/r/%d", o.ID))
			o.Body = uniqueBody(o.ID, 20+r.Intn(40))
			offers = append(offers, o)
		}
	}
	cfg := genConfig(r, nk)
	if !cfg.def {
		cfg.maxSize = pickOf(r, cfg.maxSize, 500)
	}
	var lists int64
	if !cfg.def && len(cfg.lists) > 0 {
		cfg.wrap = func(l representation.ListConstructor) representation.ListConstructor {
			return func(reps ...representation.Representation) representation.Representation {
				atomic.AddInt64(&lists, 1)
				return l(reps...)
			}
		}
	}
	n := cfg.build(nil, nil)
	j := next()
	describe(c, j.h, offers)
	c.Desc("asked: %v %v", kind, cfg)
	var o Outcome
	if kind == "choose" {
		chooser := representation.Chooser(proactive.ApacheHTTPD())
		if r.Bool() {
			chooser = transparent.RVSA1()
		}
		o = observe(NewRecorder(), func() error { _, err := chooser.Choose(j.request(), asReps(offers)...); return err })
	} else {
		o = j.perform(n, asReps(offers))
	}
	c.Eval(1)
	c.Count("calls:counted")
	most := 0
	for _, rep := range offers {
		most = max(most, int(rep.bytesCalls))
	}
	c.Count(fmt.Sprintf("calls:%d", min(most, mostCalls+1)))
	if most > mostCalls {
		c.Fail("a representation of %d was serialized %d times for one negotiation (%s)", len(offers), most, outcomeName(o))
	}
	if int(lists) > mostCalls*max(1, len(cfg.lists)) {
		c.Fail("the constructors of %d kinds of lists were called %d times for one negotiation", len(cfg.lists), lists)
	}
	c.Nontrivial(kind, outcomeName(o), fmt.Sprint(most), offerKey(offers))
}
