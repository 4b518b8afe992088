package main

import (
	"errors"
	"fmt"
	"math"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"go.uber.org/zap/zaptest/observer"
)

func init() {
	register(&Property{
		ID:   "C29",
		More: 8,
		Rule: "sequences of up to eight options of every kind, repeated, reused for several negotiators, mixed with options of the application that look at and modify what the earlier ones configured, fold into a model configuration that starts from the documented defaults; " +
			"every setting of the resulting negotiator is then probed by negotiations that only depend on it (and on what the model says of the others), also at its boundary. Non-trivial: distinct by options and probe.",
		Subs: []Sub{
			{Name: "proactive", Quick: 8000, Thorough: 200000, Run: c29Proactive},
			{Name: "transparent", Quick: 5000, Thorough: 120000, Run: c29Transparent},
			{Name: "reactive", Quick: 2500, Thorough: 40000, Run: c29Reactive},
		},
		MinEvents: []string{"defaults", "default-negotiator", "overridden", "application-option", "reused", "strict", "relaxed", "list:default", "list:first", "list:later", "list:fallback", "list:disabled", "chooser:default", "chooser:custom", "chooser:none",
			"size:within", "size:exceeded", "small:within", "small:exceeded", "logged", "metrics"},
	})
}

// optChooser is an algorithm with a number, which decides what it chooses; -1
// chooses nothing.
type optChooser int

func (o optChooser) Choose(_ *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	if o < 0 || len(reps) == 0 {
		return nil, nil
	}
	return reps[int(o)%len(reps)], nil
}

// optList is a list constructor with a number.
func optList(id, size int) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		rep := &Rep{ID: id, CT: fmt.Sprintf("application/x-list%d", id), SQ: 1000, Body: uniqueBody(id, size)}
		return rep
	}
}

// sinks are the loggers and scopes that an application has.
type sinks struct {
	loggers []*zap.Logger
	logs    []*observer.ObservedLogs
	scopes  []tally.TestScope
}

func newSinks(n int) *sinks {
	s := &sinks{}
	for k := 0; k < n; k++ {
		core, logs := observer.New(zapcore.DebugLevel)
		s.loggers, s.logs = append(s.loggers, zap.New(core)), append(s.logs, logs)
		s.scopes = append(s.scopes, tally.NewTestScope("", nil))
	}
	return s
}

func (s *sinks) counts() (out []int) {
	for k := range s.logs {
		total := int64(0)
		for _, v := range snapshotMetrics(s.scopes[k]) {
			total += v
		}
		out = append(out, s.logs[k].Len(), int(total))
	}
	return
}

// check is called before and after a negotiation: only the sinks that are
// configured get something.
func (s *sinks) check(c *Case, before []int, logger, scope int) error {
	after := s.counts()
	for k := range s.logs {
		logged, counted := after[2*k]-before[2*k], after[2*k+1]-before[2*k+1]
		if (logged > 0) != (k == logger) {
			return fmt.Errorf("logger %d is configured, but logger %d got %d entries", logger, k, logged)
		}
		if (counted > 0) != (k == scope) {
			return fmt.Errorf("scope %d is configured, but scope %d got %d metrics", scope, k, counted)
		}
	}
	if logger >= 0 {
		c.Count("logged")
	}
	if scope >= 0 {
		c.Count("metrics")
	}
	return nil
}

func optOffer(r *Rand, n int) []*Rep {
	var reps []*Rep
	for k := 0; k < n; k++ {
		reps = append(reps, &Rep{ID: k, CT: "text/plain", Lang: "en", Charset: "utf-8", SQ: 1000, Loc: *mustURL(fmt.Sprintf("http://example.com/r/%d", k)), Body: uniqueBody(k, r.Range(10, 30))})
	}
	return reps
}

// optProbe performs a negotiation and checks the sinks.
func optProbe(c *Case, n negotiator.Negotiator, s *sinks, logger, scope int, h http.Header, reps []*Rep, what string) (Outcome, bool) {
	before := s.counts()
	o := negotiate(n, newRequest(resourceURL, h), reps)
	c.Eval(1)
	if o.Panic != nil {
		c.Fail("%s: %s", what, o.Short())
		return o, false
	}
	if err := s.check(c, before, logger, scope); err != nil && o.Err == nil {
		c.Fail("%s: %v", what, err)
		return o, false
	}
	return o, true
}

type proactiveModel struct {
	strict [3]bool
	list   bool
	def    int // -1 is the default.
	lists  []int
	dflts  bool // the lists are the defaults.
	choose int  // -2 is the default.
	logger int
	scope  int
}

func c29Proactive(c *Case) {
	r := c.R
	m := proactiveModel{strict: [3]bool{true, true, true}, list: true, def: -1, dflts: true, choose: -2, logger: -1, scope: -1}
	s := newSinks(3)
	var opts []proactive.Option
	var desc []string
	var seen error
	kinds := map[int]bool{}
	for k := pickOf(r, 0, 1, 2, 3, r.Range(4, 8)); k > 0; k-- {
		kind := r.Intn(12)
		if kinds[kind] {
			c.Count("overridden")
		}
		kinds[kind] = true
		var o proactive.Option
		name := ""
		switch kind {
		case 0:
			o, name, m.strict[0] = proactive.DisableStrictAccept(), "DisableStrictAccept", false
		case 1:
			o, name, m.strict[1] = proactive.DisableStrictAcceptLanguage(), "DisableStrictAcceptLanguage", false
		case 2:
			o, name, m.strict[2] = proactive.DisableStrictAcceptCharset(), "DisableStrictAcceptCharset", false
		case 3:
			o, name, m.strict = proactive.DisableStrictMode(), "DisableStrictMode", [3]bool{}
		case 4:
			m.choose = r.Range(-1, 5)
			o, name = proactive.Algorithm(optChooser(m.choose)), fmt.Sprintf("Algorithm(%d)", m.choose)
		case 5:
			o, name, m.list = proactive.DisableNotAcceptableRepresentation(), "DisableNotAcceptableRepresentation", false
		case 6:
			m.def = r.Intn(100)
			o, name = proactive.DefaultRepresentation(optList(m.def, 20)), fmt.Sprintf("DefaultRepresentation(%d)", m.def)
		case 7:
			m.dflts, m.lists = false, nil
			var cons []representation.ListConstructor
			for n := r.Intn(4); n > 0; n-- {
				id := r.Range(100, 200)
				m.lists = append(m.lists, id)
				cons = append(cons, optList(id, 20))
			}
			o, name = proactive.Representations(cons...), fmt.Sprintf("Representations(%v)", m.lists)
		case 8:
			m.logger = r.Intn(len(s.loggers))
			o, name = proactive.Logger(s.loggers[m.logger]), fmt.Sprintf("Logger(%d)", m.logger)
		case 9:
			m.scope = r.Intn(len(s.scopes))
			o, name = proactive.Scope(s.scopes[m.scope]), fmt.Sprintf("Scope(%d)", m.scope)
		case 10:
			// an option of the application.
			f, v := r.Intn(4), r.Bool()
			if f == 3 {
				m.list = v
			} else {
				m.strict[f] = v
			}
			c.Count("application-option")
			o, name = func(o *proactive.Options) {
				*[]*bool{&o.StrictAccept, &o.StrictAcceptLanguage, &o.StrictAcceptCharset, &o.NotAcceptableRepresentation}[f] = v
			}, fmt.Sprintf("set %d to %v", f, v)
		case 11:
			want := m
			c.Count("application-option")
			o, name = func(o *proactive.Options) {
				got := [4]bool{o.StrictAccept, o.StrictAcceptLanguage, o.StrictAcceptCharset, o.NotAcceptableRepresentation}
				if got != [4]bool{want.strict[0], want.strict[1], want.strict[2], want.list} {
					seen = fmt.Errorf("an option finds %v, want %v %v", got, want.strict, want.list)
				}
				if want.dflts != (len(o.RepresentationConstructors) == 3 && fmt.Sprint(want.lists) == "[]") && len(o.RepresentationConstructors) != len(want.lists) {
					seen = fmt.Errorf("an option finds %d list constructors", len(o.RepresentationConstructors))
				}
				if id, ok := o.Chooser.(optChooser); ok != (want.choose != -2) || ok && int(id) != want.choose {
					seen = fmt.Errorf("an option finds the algorithm %v, want %d", o.Chooser, want.choose)
				}
			}, "look"
		}
		opts, desc = append(opts, o), append(desc, name)
	}
	var n negotiator.Negotiator = proactive.New(opts...)
	if len(opts) == 0 {
		c.Count("defaults")
		if r.Bool() {
			c.Count("default-negotiator")
			n = proactive.Default
		}
	} else if r.P(40) {
		// the options can be used again, also with others.
		c.Count("reused")
		proactive.New(append(append([]proactive.Option{}, opts...), proactive.DisableStrictMode(), proactive.Representations(optList(999, 5)), proactive.Algorithm(optChooser(-1)))...)
		proactive.New(proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation())
		if r.Bool() {
			n = proactive.New(opts...)
		}
	}
	c.Desc("options: %s", strings.Join(desc, ", "))
	if seen != nil {
		c.Fail("%v", seen)
		return
	}
	reps := optOffer(r, r.Range(1, 5))
	for _, probe := range r.Perm(4) {
		h := http.Header{}
		strict := false
		switch probe {
		case 0:
			h["Accept"], strict = []string{"x/none"}, m.strict[0]
		case 1:
			h["Accept-Language"], strict = []string{"ja"}, m.strict[1]
		case 2:
			h["Accept-Charset"], strict = []string{"x-none"}, m.strict[2]
		case 3:
			h["Accept"] = []string{"text/plain, application/json;q=0.1"}
		}
		what := headerString(h)
		o, ok := optProbe(c, n, s, m.logger, m.scope, h, reps, what)
		if !ok {
			return
		}
		if c.Count("relaxed"); strict {
			c.Count("strict")
		}
		switch m.choose {
		case -2:
			c.Count("chooser:default")
		case -1:
			c.Count("chooser:none")
		default:
			c.Count("chooser:custom")
		}
		c.Nontrivial(strings.Join(desc, ","), what)
		if !strict && m.choose != -1 {
			want := 0
			if m.choose >= 0 {
				want = m.choose % len(reps)
			} else {
				for i, rep := range reps {
					if len(rep.Body) < len(reps[want].Body) {
						want = i
					}
				}
			}
			if o.Err != nil || o.StatusCode() != 200 || o.Served() != want {
				c.Fail("%s: want #%d, but got %s", what, want, o.Short())
				return
			}
			continue
		}
		if o.Err != nil || o.StatusCode() != 406 {
			c.Fail("%s: want 406, but got %s", what, o.Short())
			return
		}
		if !m.list {
			c.Count("list:disabled")
			if len(o.Body) > 0 {
				c.Fail("%s: a list although lists are disabled", what)
			}
			continue
		}
		// which list.
		var want []string
		fallback := "application/json"
		if m.def >= 0 {
			fallback = fmt.Sprintf("application/x-list%d", m.def)
		}
		formats := []string{"application/json", "application/xml", "application/yaml"}
		if !m.dflts {
			formats = nil
			for _, id := range m.lists {
				formats = append(formats, fmt.Sprintf("application/x-list%d", id))
			}
		}
		switch {
		case len(formats) == 0 || m.choose == -1:
			c.Count("list:fallback")
			want = []string{fallback}
		case m.choose >= 0:
			k := m.choose % len(formats)
			if k == 0 {
				c.Count("list:first")
			} else {
				c.Count("list:later")
			}
			want = []string{formats[k]}
		case probe == 0:
			// no format matches.
			c.Count("list:fallback")
			want = []string{fallback}
		default:
			c.Count("list:default")
			want = append(formats, fallback)
		}
		got := o.Header.Get("Content-Type")
		if !containsString(want, got) {
			c.Fail("%s: the list is of type %q, want one of %q", what, got, want)
			return
		}
	}
	c.Sample(map[string]any{"options": desc, "model": fmt.Sprintf("%+v", m)})
}

func containsString(s []string, v string) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func c29Transparent(c *Case) {
	r := c.R
	max, small, choose, list, logger, scope := 10, 50, -2, -1, -1, -1
	listSize := 0
	s := newSinks(3)
	var opts []transparent.Option
	var desc []string
	var seen error
	kinds := map[int]bool{}
	for k := pickOf(r, 0, 1, 2, 3, r.Range(4, 8)); k > 0; k-- {
		kind := r.Intn(8)
		if kinds[kind] {
			c.Count("overridden")
		}
		kinds[kind] = true
		var o transparent.Option
		name := ""
		switch kind {
		case 0:
			max = pickOf(r, 1, 2, 9, 10, 11, 30)
			if r.P(8) {
				max = pickOf(r, 0, -1, -10, math.MinInt)
				c.Count("size:raised")
			}
			o, name = transparent.MaximumVariantListSize(max), fmt.Sprintf("MaximumVariantListSize(%d)", max)
			if max < 1 {
				// as documented.
				max = 1
			}
		case 1:
			small = pickOf(r, 0, 1, 49, 50, 51, 500)
			o, name = transparent.GuessSmallThreshold(small), fmt.Sprintf("GuessSmallThreshold(%d)", small)
		case 2:
			choose = r.Range(-1, 5)
			o, name = transparent.RVSA(optChooser(choose)), fmt.Sprintf("RVSA(%d)", choose)
		case 3:
			list, listSize = r.Range(100, 200), r.Range(20, 80)
			o, name = transparent.ListRepresentation(optList(list, listSize)), fmt.Sprintf("ListRepresentation(%d)", list)
		case 4:
			logger = r.Intn(3)
			o, name = transparent.Logger(s.loggers[logger]), fmt.Sprintf("Logger(%d)", logger)
		case 5:
			scope = r.Intn(3)
			o, name = transparent.Scope(s.scopes[scope]), fmt.Sprintf("Scope(%d)", scope)
		case 6:
			max, small = r.Range(1, 12), r.Range(0, 60)
			mm, ss := max, small
			c.Count("application-option")
			o, name = func(o *transparent.Options) { o.MaximumVariantListSize, o.GuessSmallThreshold = mm, ss }, fmt.Sprintf("set %d %d", max, small)
		case 7:
			mm, ss, cc := max, small, choose
			c.Count("application-option")
			o, name = func(o *transparent.Options) {
				id, ok := o.Chooser.(optChooser)
				if o.MaximumVariantListSize != mm || o.GuessSmallThreshold != ss || ok != (cc != -2) || ok && int(id) != cc {
					seen = fmt.Errorf("an option finds %d, %d and algorithm %v, want %d, %d and %d", o.MaximumVariantListSize, o.GuessSmallThreshold, o.Chooser, mm, ss, cc)
				}
			}, "look"
		}
		opts, desc = append(opts, o), append(desc, name)
	}
	var n negotiator.Negotiator = transparent.New(opts...)
	if len(opts) == 0 {
		c.Count("defaults")
		if r.Bool() {
			c.Count("default-negotiator")
			n = transparent.Default
		}
	} else if r.P(40) {
		c.Count("reused")
		transparent.New(append(append([]transparent.Option{}, opts...), transparent.MaximumVariantListSize(0), transparent.ListRepresentation(optList(999, 5)), transparent.RVSA(optChooser(-1)))...)
		if r.Bool() {
			n = transparent.New(opts...)
		}
	}
	c.Desc("options: %s", strings.Join(desc, ", "))
	if seen != nil {
		c.Fail("%v", seen)
		return
	}
	c.Nontrivial(strings.Join(desc, ","))
	listType := "application/json"
	if list >= 0 {
		listType = fmt.Sprintf("application/x-list%d", list)
	}
	isList := func(o Outcome) error {
		if o.Err != nil || o.StatusCode() != 300 || o.Header.Get("Content-Type") != listType {
			return fmt.Errorf("want a list of type %s, but got %s of type %q", listType, o.Short(), o.Header.Get("Content-Type"))
		}
		return nil
	}
	// the size of the offer.
	for _, size := range []int{max, max + 1} {
		reps := optOffer(r, size)
		o, ok := optProbe(c, n, s, logger, scope, http.Header{"Negotiate": {"trans"}}, reps, fmt.Sprintf("%d variants", size))
		if !ok {
			return
		}
		if size > max {
			c.Count("size:exceeded")
			if !errors.Is(o.Err, transparent.ErrVariantListSizeExceeded) {
				c.Fail("%d variants: want %v, but got %s", size, transparent.ErrVariantListSizeExceeded, o.Short())
				return
			}
			continue
		}
		c.Count("size:within")
		if err := isList(o); err != nil {
			c.Fail("%d variants: %v", size, err)
			return
		}
		if list >= 0 {
			c.Count("list:first")
		} else {
			c.Count("list:default")
			listSize = len(o.Body)
		}
	}
	// the algorithm and the threshold.
	reps := optOffer(r, pickOf(r, 1, max))
	if len(reps) > 5 {
		reps = reps[:5]
	}
	at := 0
	switch {
	case choose >= 0:
		c.Count("chooser:custom")
		at = choose % len(reps)
	case choose == -1:
		c.Count("chooser:none")
	default:
		c.Count("chooser:default")
		at = r.Intn(len(reps))
		for i, rep := range reps {
			if i != at {
				rep.SQ = 500
			}
		}
	}
	h := http.Header{"Negotiate": {"1.0"}, "Accept": {"text/plain"}, "Accept-Language": {"en"}, "Accept-Charset": {"utf-8"}}
	o, ok := optProbe(c, n, s, logger, scope, h, reps, "1.0")
	if !ok {
		return
	}
	if choose == -1 {
		if err := isList(o); err != nil {
			c.Fail("nothing is chosen: %v", err)
		}
		return
	}
	if o.Err != nil || o.StatusCode() != 200 || o.Served() != at {
		c.Fail("want #%d, but got %s", at, o.Short())
		return
	}
	// the length of the list is only known from the list itself.
	if list < 0 {
		o, ok = optProbe(c, n, s, logger, scope, http.Header{"Negotiate": {"trans"}}, reps, "trans")
		if !ok {
			return
		}
		listSize = len(o.Body)
	}
	for _, over := range []int{-1, 0, 1} {
		reps[at].Body = uniqueBody(at, listSize+small+over)
		h = http.Header{"Negotiate": {"guess-small"}, "Accept": {"text/plain"}, "Accept-Language": {"en"}, "Accept-Charset": {"utf-8"}}
		o, ok = optProbe(c, n, s, logger, scope, h, reps, "guess-small")
		if !ok {
			return
		}
		if over > 0 {
			c.Count("small:exceeded")
			if err := isList(o); err != nil {
				c.Fail("%d bytes against %d of the list: %v", listSize+small+over, listSize, err)
				return
			}
			continue
		}
		c.Count("small:within")
		if o.Err != nil || o.StatusCode() != 200 || o.Served() != at {
			c.Fail("%d bytes against %d of the list: want #%d, but got %s", listSize+small+over, listSize, at, o.Short())
			return
		}
	}
	c.Sample(map[string]any{"options": desc, "max": max, "threshold": small, "list": list, "algorithm": choose})
}

func c29Reactive(c *Case) {
	r := c.R
	list, logger, scope := -1, -1, -1
	s := newSinks(3)
	var opts []reactive.Option
	var desc []string
	kinds := map[int]bool{}
	for k := r.Intn(6); k > 0; k-- {
		kind := r.Intn(4)
		if kinds[kind] {
			c.Count("overridden")
		}
		kinds[kind] = true
		var o reactive.Option
		switch kind {
		case 0:
			list = r.Intn(100)
			o = reactive.Representation(optList(list, 20))
		case 1:
			logger = r.Intn(3)
			o = reactive.Logger(s.loggers[logger])
		case 2:
			scope = r.Intn(3)
			o = reactive.Scope(s.scopes[scope])
		case 3:
			list = r.Range(100, 200)
			con := optList(list, 20)
			c.Count("application-option")
			o = func(o *reactive.Options) { o.RepresentationConstructor = con }
		}
		opts, desc = append(opts, o), append(desc, fmt.Sprintf("%d: list %d logger %d scope %d", kind, list, logger, scope))
	}
	var n negotiator.Negotiator = reactive.New(opts...)
	if len(opts) == 0 {
		c.Count("defaults")
		if r.Bool() {
			c.Count("default-negotiator")
			n = reactive.Default
		}
	} else if r.P(40) {
		c.Count("reused")
		reactive.New(append(append([]reactive.Option{}, opts...), reactive.Representation(optList(999, 5)))...)
		if r.Bool() {
			n = reactive.New(opts...)
		}
	}
	c.Desc("options: %s", strings.Join(desc, ", "))
	reps := optOffer(r, r.Range(1, 4))
	o, ok := optProbe(c, n, s, logger, scope, http.Header{"Accept": {"text/plain"}}, reps, "reactive")
	if !ok {
		return
	}
	want := "application/json"
	if list >= 0 {
		c.Count("list:first")
		want = fmt.Sprintf("application/x-list%d", list)
	}
	c.Nontrivial(desc...)
	if o.Err != nil || o.StatusCode() != 300 || o.Header.Get("Content-Type") != want {
		c.Fail("want a list of type %s, but got %s of type %q", want, o.Short(), o.Header.Get("Content-Type"))
	}
	c.Sample(map[string]any{"options": desc, "list": want})
}
