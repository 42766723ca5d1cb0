package inproc

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"

	"verif/harness/vt"
)

type pay struct {
	ID  int
	Pad string
}

func mkEvent(id int, rng *rand.Rand) (eventbus.Event, eventbus.EventType, pay) {
	t := eventbus.EventType(fmt.Sprintf("type%d", id%5))
	p := pay{ID: id, Pad: strings.Repeat(string(rune('a'+id%26)), rng.Intn(40))}
	e, err := eventbus.NewEvent(t, p)
	if err != nil {
		panic(err)
	}
	return e, t, p
}

type got struct {
	id    int
	at    time.Time
	typ   eventbus.EventType
	pad   string
	err   error
	count int
}

// sub is a monitored subscriber.
type sub struct {
	name   string
	topics []eventbus.Topic
	c      chan eventbus.Event
	done   eventbus.ShutdownFunc
	kind   string
	mu     sync.Mutex
	got    []got
	closed time.Time
	fin    atomic.Bool
}

func (s *sub) record(e eventbus.Event) int {
	var p pay
	err := e.Decode(&p)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, got{id: p.ID, at: time.Now(), typ: e.Type(), pad: p.Pad, err: err})
	return p.ID
}

func (s *sub) counts() map[string]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]int{}
	for _, g := range s.got {
		m[fmt.Sprint(g.id)]++
	}
	return m
}

func (s *sub) order() string {
	h := fnv.New64()
	s.mu.Lock()
	for _, g := range s.got {
		fmt.Fprintf(h, "%d,", g.id)
	}
	s.mu.Unlock()
	return fmt.Sprintf("%x", h.Sum64())
}

func (s *sub) matches(topics []eventbus.Topic) int {
	if len(s.topics) == 0 {
		return 1
	}
	n := 0
	for _, t := range topics {
		for _, u := range s.topics {
			if t == u {
				n++
			}
		}
	}
	return n
}

func (s *sub) String() string { return fmt.Sprintf("%s(%s %v)", s.name, s.kind, s.topics) }

var topicSets = [][]eventbus.Topic{
	{"a", "b", "c", "dd"}, {"alerts", "Alerts", "alerts ", "ALERTS"}, {"x", "x/y", "x.*", "*"}, {"", "a", "a,b", "b"}, {"topic.1", "topic", "#", "topic/"}, {"log", "log.error", "logs", "lo"}, {"\x00", "0", "é", "e\u0301"},
}

var allTopics = topicSets[0]

func someTopics(rng *rand.Rand, max int) []eventbus.Topic {
	n := rng.Intn(max + 1)
	var out []eventbus.Topic
	for _, i := range rng.Perm(len(allTopics))[:n] {
		out = append(out, allTopics[i])
	}
	return out
}

// C16: exact delivery.
func TestC16(t *testing.T) {
	rec := vt.New(t, "C16", "a case is one generated program of subscribers (default, one or several topics, joining and leaving between phases), dispatchers and events run on the real bus under the race of its own delivery goroutines; it is non-trivial when at least two events were delivered, and distinct by the observed delivery orders of all subscribers")
	defer rec.Finish()
	var desc atomic.Value
	desc.Store("")
	watch(rec, func() string { return desc.Load().(string) })
	rng := rec.Rng("prog")
	n := rec.Pick(2500, 60000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		seed := rng.Int63()
		d := fmt.Sprintf("program %d seed %d", i, seed)
		desc.Store(d)
		rec.Current(d)
		bubble(t, func(t *testing.T) { deliveryProgram(rec, seed, d) })
		step()
	}
	runFloods(t, rec, &desc)
}

func deliveryProgram(rec *vt.Rec, seed int64, desc string) {
	rng := rand.New(rand.NewSource(seed))
	allTopics = topicSets[rng.Intn(len(topicSets))]
	bus := eventbus.New()
	var subs, gone []*sub
	want := map[*sub]map[string]int{}
	typ := map[int]eventbus.EventType{}
	pads := map[int]string{}
	var trace []string
	next := 0
	large := rng.Intn(50) == 0 // many topics and subscribers
	topics := func(max int) []eventbus.Topic {
		if !large {
			return someTopics(rng, max)
		}
		var out []eventbus.Topic
		for _, i := range rng.Perm(100)[:rng.Intn(60)] {
			out = append(out, eventbus.Topic(fmt.Sprint("topic ", i)))
		}
		return out
	}
	join := func() {
		s := &sub{name: fmt.Sprintf("s%d", next), topics: topics(3), kind: "draining"}
		next++
		if rng.Intn(4) == 0 {
			s.topics = nil
		}
		pause := time.Duration(0)
		if rng.Intn(3) == 0 {
			pause = time.Duration(rng.Intn(50)) * time.Millisecond
			if rng.Intn(4) == 0 { // very slow, but draining
				pause = time.Duration(rng.Intn(600)) * time.Second
			}
		}
		s.c, s.done = bus.Subscribe(s.topics...)
		want[s] = map[string]int{}
		subs = append(subs, s)
		trace = append(trace, "join "+s.String())
		go func() {
			for e := range s.c {
				s.record(e)
				if pause > 0 {
					time.Sleep(pause)
				}
			}
			s.closed = time.Now()
			s.fin.Store(true)
			s.done()
		}()
	}
	for k := rng.Intn(6); k >= 0; k-- {
		join()
	}
	if large {
		for k := 30 + rng.Intn(100); k >= 0; k-- {
			join()
		}
	} else if rng.Intn(400) == 0 { // a crowd of subscribers
		for k := 300 + rng.Intn(500); k >= 0; k-- {
			join()
		}
	}
	id := 0
	events := 0
	base := append(make([]eventbus.Topic, 0, 8), allTopics...)
	for phase := 1 + rng.Intn(3); phase > 0; phase-- {
		var wg sync.WaitGroup
		for d := 1 + rng.Intn(5); d > 0; d-- {
			type disp struct {
				e eventbus.Event
				t []eventbus.Topic
				p time.Duration
			}
			var plan []disp
			for k := 1 + rng.Intn(8); k > 0; k-- {
				e, ty, p := mkEvent(id, rng)
				typ[id], pads[id] = ty, p.Pad
				var tp []eventbus.Topic
				if rng.Intn(2) == 0 {
					a := rng.Intn(len(base))
					tp = base[a : a+rng.Intn(len(base)-a)] // shares its memory with other topic lists
				} else {
					tp = topics(4)
				}
				exp := append([]eventbus.Topic{}, tp...)
				for _, s := range subs {
					if m := s.matches(exp); m > 0 {
						want[s][fmt.Sprint(id)] += m
					}
				}
				w := time.Duration(0)
				if rng.Intn(3) == 0 {
					w = time.Duration(rng.Intn(20)) * time.Millisecond
				}
				plan = append(plan, disp{e, tp, w})
				trace = append(trace, fmt.Sprintf("dispatch %d %v", id, exp))
				id++
				events++
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range plan {
					if p.p > 0 {
						time.Sleep(p.p)
					}
					bus.Dispatch(p.e, p.t...)
				}
			}()
		}
		wg.Wait()
		time.Sleep(2000 * time.Hour)
		synctest.Wait()
		for k := range allTopics {
			if base[k] != allTopics[k] {
				rec.Violation("topics-changed", "dispatching changed the caller's list of topics", map[string]interface{}{"case": desc, "list": fmt.Sprint(base)})
			}
		}
		switch rng.Intn(3) {
		case 0:
			join()
		case 1:
			if len(subs) > 1 {
				k := rng.Intn(len(subs))
				s := subs[k]
				bus.Unsubscribe(s.c, nil)
				trace = append(trace, "leave "+s.String())
				subs = append(append([]*sub{}, subs[:k]...), subs[k+1:]...)
				gone = append(gone, s)
			}
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	err := bus.Shutdown(ctx)
	cancel()
	synctest.Wait()
	subs = append(subs, gone...)
	if err != nil {
		rec.Violation("shutdown", "shutting down a bus of draining subscribers failed: "+err.Error(), map[string]interface{}{"case": desc, "program": trace})
	}
	sig := ""
	delivered := 0
	for _, s := range subs {
		if diff := eqCounts(want[s], s.counts()); diff != "" {
			rec.Violation("delivery", fmt.Sprintf("subscriber %s received event %s", s, diff), map[string]interface{}{"case": desc, "program": trace})
			return
		}
		for _, g := range s.got {
			if g.err != nil || g.typ != typ[g.id] || g.pad != pads[g.id] {
				rec.Violation("content", fmt.Sprintf("subscriber %s received event %d with type %s, payload %q, error %v", s, g.id, g.typ, g.pad, g.err), map[string]interface{}{"case": desc, "program": trace})
				return
			}
		}
		delivered += len(s.got)
		sig += s.order() + "/"
	}
	rec.Add("deliveries", delivered)
	rec.Add("events", events)
	rec.Case(sig, delivered >= 2, map[string]interface{}{"program": trace, "deliveries": delivered})
}

// flood dispatches many events while one subscriber does not read at all and another only reads when all of them
// have been dispatched.
func flood(rec *vt.Rec, n, pubs int) {
	desc := fmt.Sprintf("flood of %d events from %d goroutines", n, pubs)
	rec.Current(desc)
	wit := map[string]interface{}{"case": desc}
	bus := eventbus.New()
	good, late := &sub{name: "reading", kind: "draining"}, &sub{name: "reading later", kind: "draining"}
	stuck := &sub{name: "stuck", kind: "stuck"}
	for i, s := range []*sub{good, late, stuck} {
		if i > 0 {
			s.topics = []eventbus.Topic{"a"}
		}
		s.c, s.done = bus.Subscribe(s.topics...)
	}
	start, release := make(chan struct{}), make(chan struct{})
	for _, s := range []*sub{good, late} {
		s := s
		go func() {
			if s == late {
				<-start
			}
			for e := range s.c {
				s.record(e)
			}
			s.done()
		}()
	}
	go func() {
		<-release
		stuck.done()
	}()
	evs := make([]eventbus.Event, n)
	want := map[string]int{}
	rng := rand.New(rand.NewSource(int64(n)))
	for i := range evs {
		evs[i], _, _ = mkEvent(i, rng)
		want[fmt.Sprint(i)] = 1
	}
	begin := time.Now()
	var wg sync.WaitGroup
	for k := 0; k < pubs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < n; i += pubs {
				bus.Dispatch(evs[i], "a")
			}
		}()
	}
	wg.Wait()
	synctest.Wait()
	if d := time.Since(begin); d > 0 {
		rec.Violation("blocked", fmt.Sprintf("dispatching blocked for %v while other subscribers do not read", d), wit)
	}
	if diff := eqCounts(want, good.counts()); diff != "" {
		rec.Violation("delivery", "while others do not read, a subscriber received event "+diff, wit)
	}
	begin = time.Now()
	bus.Unsubscribe(stuck.c, nil)
	close(release)
	if d := time.Since(begin); d > 0 {
		rec.Violation("blocked", fmt.Sprintf("removing a subscriber blocked for %v", d), wit)
	}
	time.Sleep(50 * 24 * time.Hour)
	close(start)
	synctest.Wait()
	if diff := eqCounts(want, late.counts()); diff != "" {
		rec.Violation("delivery", "a subscriber that began to read late received event "+diff, wit)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	if err := bus.Shutdown(ctx); err != nil {
		rec.Violation("shutdown", "shutting down a bus of draining subscribers failed: "+err.Error(), wit)
	}
	cancel()
	rec.Add("flood_deliveries", len(good.got)+len(late.got))
	rec.Case(desc+good.order()+late.order(), true, wit)
}

var floods = []int{150, 1200, 9000}

func runFloods(t *testing.T, rec *vt.Rec, desc *atomic.Value) {
	for _, n := range append(floods, rec.Pick(66000, 300000)) {
		for _, p := range []int{1, 4} {
			desc.Store(fmt.Sprintf("flood of %d", n))
			bubble(t, func(*testing.T) { flood(rec, n, p) })
			step()
		}
	}
}

// C17: misbehaving subscribers.
func TestC17(t *testing.T) {
	rec := vt.New(t, "C17", "a case is one generated program that mixes well-behaved subscribers with stuck, slow, channel-closing and removed ones while several goroutines dispatch, subscribe and unsubscribe; every bus call must return at the virtual instant it was made and every well-behaved subscriber must receive each event at the virtual instant it was dispatched; non-trivial when at least one subscriber misbehaved or was removed, distinct by the observed delivery orders and misbehaviours")
	defer rec.Finish()
	var desc atomic.Value
	desc.Store("")
	watch(rec, func() string { return desc.Load().(string) })
	rng := rec.Rng("prog")
	n := rec.Pick(3000, 80000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		seed := rng.Int63()
		d := fmt.Sprintf("program %d seed %d", i, seed)
		desc.Store(d)
		rec.Current(d)
		bubble(t, func(t *testing.T) { hostileProgram(rec, seed, d) })
		step()
	}
	runFloods(t, rec, &desc)
}

func hostileProgram(rec *vt.Rec, seed int64, desc string) {
	rng := rand.New(rand.NewSource(seed))
	bus := eventbus.New()
	var tmu sync.Mutex
	var trace []string
	say := func(f string, a ...interface{}) {
		tmu.Lock()
		trace = append(trace, fmt.Sprintf("%v ", time.Now().UnixMilli()%100000)+fmt.Sprintf(f, a...))
		tmu.Unlock()
	}
	fail := func(key, what string) {
		tmu.Lock()
		defer tmu.Unlock()
		rec.Violation(key, what, map[string]interface{}{"case": desc, "program": append([]string{}, trace...)})
	}
	// timed runs one call to the bus, which must not block
	timed := func(what string, f func()) {
		a := time.Now()
		f()
		if d := time.Since(a); d > 0 {
			fail("blocked", fmt.Sprintf("%s blocked for %v", what, d))
		}
		step()
	}
	release := make(chan struct{})
	var subs []*sub
	sent := map[int]time.Time{}
	want := map[*sub]map[string]int{}
	start := func(kind string, topics []eventbus.Topic) *sub {
		s := &sub{name: fmt.Sprintf("s%d", len(subs)), topics: topics, kind: kind}
		timed("Subscribe", func() { s.c, s.done = bus.Subscribe(s.topics...) })
		subs = append(subs, s)
		want[s] = map[string]int{}
		delay := time.Duration(rng.Intn(60)) * time.Millisecond
		reads := rng.Intn(3)
		say("subscribe %s", s)
		switch kind {
		case "good":
			go func() {
				for e := range s.c {
					s.record(e)
				}
				s.done()
			}()
		case "slow":
			go func() {
				for e := range s.c {
					s.record(e)
					time.Sleep(37 * time.Minute)
				}
				s.done()
			}()
		case "stuck":
			go func() {
				for k := 0; k < reads; k++ {
					select {
					case e, ok := <-s.c:
						if ok {
							s.record(e)
						}
					case <-release:
					}
				}
				<-release
				s.done()
			}()
		case "closer":
			go func() {
				time.Sleep(delay)
				say("%s closes its own channel", s.name)
				func() {
					defer func() { _ = recover() }() // the bus may have closed it already
					close(s.c)
				}()
				<-release
				s.done()
			}()
		case "selfremover":
			go func() {
				for k := 0; k < reads; k++ {
					select {
					case e, ok := <-s.c:
						if ok {
							s.record(e)
						}
					case <-release:
					}
				}
				say("%s removes itself", s.name)
				timed("Unsubscribe", func() { bus.Unsubscribe(s.c, nil) })
				<-release
				s.done()
			}()
		}
		return s
	}
	kinds := []string{"slow", "stuck", "closer", "selfremover", "good"}
	var bad []string
	crowd := 0
	if rng.Intn(300) == 0 {
		crowd = 200 + rng.Intn(300)
	}
	for k := 1 + rng.Intn(3) + crowd; k > 0; k-- {
		start("good", someTopics(rng, 2))
	}
	for k := crowd / 4; k > 0; k-- {
		start("stuck", someTopics(rng, 2))
	}
	for k := 1 + rng.Intn(5); k > 0; k-- {
		kd := kinds[rng.Intn(len(kinds))]
		if kd != "good" {
			bad = append(bad, kd)
		}
		start(kd, someTopics(rng, 2))
	}
	events := map[int]bool{}
	var emu sync.Mutex
	id := 0
	type removed struct {
		s  *sub
		at time.Time
	}
	var rem []removed
	for round := 2 + rng.Intn(8); round > 0; round-- {
		time.Sleep(time.Duration(1+rng.Intn(20)) * time.Millisecond)
		synctest.Wait()
		var wg sync.WaitGroup
		for k := 1 + rng.Intn(4); k > 0; k-- {
			for j := 1 + rng.Intn(3); j > 0; j-- {
				e, _, _ := mkEvent(id, rng)
				tp := someTopics(rng, 3)
				events[id] = true
				for _, s := range subs {
					if s.kind == "good" {
						if m := s.matches(tp); m > 0 {
							want[s][fmt.Sprint(id)] += m
						}
					}
				}
				my := id
				id++
				sent[my] = time.Now()
				wg.Add(1)
				go func() {
					defer wg.Done()
					say("dispatch %d %v", my, tp)
					timed("Dispatch", func() { bus.Dispatch(e, tp...) })
				}()
			}
		}
		// unsubscribe a misbehaving or well-behaved one while the dispatches run
		var victim *sub
		if rng.Intn(3) == 0 && len(subs) > 2 {
			victim = subs[rng.Intn(len(subs))]
			if victim.kind == "good" || victim.kind == "removed" {
				victim = nil
			}
		}
		if victim != nil {
			v := victim
			wg.Add(1)
			go func() {
				defer wg.Done()
				say("remove %s", v)
				timed("Unsubscribe", func() { bus.Unsubscribe(v.c, nil) })
			}()
		}
		wg.Wait()
		synctest.Wait()
		if victim != nil {
			emu.Lock()
			rem = append(rem, removed{victim, time.Now()})
			emu.Unlock()
			bad = append(bad, "removed:"+victim.kind)
		}
		if rng.Intn(4) == 0 {
			kd := kinds[rng.Intn(len(kinds))]
			start(kd, someTopics(rng, 2))
		}
		if rng.Intn(6) == 0 { // remove a well-behaved one between events
			for _, s := range subs {
				if s.kind == "good" {
					s.kind = "removed"
					say("remove %s", s)
					timed("Unsubscribe", func() { bus.Unsubscribe(s.c, nil) })
					rem = append(rem, removed{s, time.Now()})
					bad = append(bad, "removed:good")
					break
				}
			}
		}
	}
	time.Sleep(time.Second)
	synctest.Wait()
	sig := strings.Join(bad, ",")
	deliv := 0
	for _, s := range subs {
		if s.kind == "good" || s.kind == "removed" {
			if diff := eqCounts(want[s], s.counts()); diff != "" {
				fail("delivery", fmt.Sprintf("well-behaved subscriber %s received event %s", s, diff))
			}
			for _, g := range s.got {
				if !g.at.Equal(sent[g.id]) {
					fail("delayed", fmt.Sprintf("well-behaved subscriber %s received event %d %v late", s, g.id, g.at.Sub(sent[g.id])))
				}
			}
			deliv += len(s.got)
			sig += s.order() + "/"
		} else {
			for k, n := range s.counts() {
				if n > 3 {
					fail("dup", fmt.Sprintf("subscriber %s received event %s %d times", s, k, n))
				}
			}
		}
	}
	// removed subscribers: channel closed, nothing dispatched later
	for _, r := range rem {
		if r.s.kind == "slow" {
			continue // still pausing after an earlier event, looked at below
		}
		func() {
			for k := 0; k < 50; k++ {
				select {
				case e, ok := <-r.s.c:
					if !ok {
						return
					}
					i := r.s.record(e)
					if sent[i].After(r.at) {
						fail("after-removal", fmt.Sprintf("removed subscriber %s received event %d, dispatched after its removal", r.s, i))
					}
				default:
					fail("not-closed", fmt.Sprintf("the channel of removed subscriber %s is not closed", r.s))
					return
				}
			}
			fail("after-removal", fmt.Sprintf("removed subscriber %s keeps receiving", r.s))
		}()
	}
	close(release)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Hour)
	err := bus.Shutdown(ctx)
	cancel()
	if err != nil {
		fail("shutdown", "shutdown failed although every subscriber finished: "+err.Error())
	}
	time.Sleep(100 * time.Hour)
	synctest.Wait()
	for _, r := range rem {
		for _, g := range r.s.got {
			if sent[g.id].After(r.at) {
				fail("after-removal", fmt.Sprintf("removed subscriber %s received event %d, dispatched after its removal", r.s, g.id))
			}
		}
	}
	rec.Add("deliveries_to_well_behaved", deliv)
	for _, b := range bad {
		rec.Add("misbehaviour_"+strings.ReplaceAll(b, ":", "_"), 1)
	}
	rec.Case(sig, len(bad) > 0 && deliv > 0, map[string]interface{}{"program": trace})
}

// C18: shutdown.
func TestC18(t *testing.T) {
	rec := vt.New(t, "C18", "a case is one generated shutdown: subscribers that are idle, busy, stuck, slow or on several topics finish at generated virtual times, dispatch while stopping, and the bus is shut down once or repeatedly under a generated context; return value and virtual return time, closing of every channel, deliveries afterwards and goroutines left behind are compared with the model; distinct by the observed outcome and delivery orders, non-trivial when there is at least one subscriber")
	defer rec.Finish()
	var desc atomic.Value
	desc.Store("")
	watch(rec, func() string { return desc.Load().(string) })
	rng := rec.Rng("prog")
	n := rec.Pick(3000, 80000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		seed := rng.Int63()
		d := fmt.Sprintf("program %d seed %d", i, seed)
		desc.Store(d)
		rec.Current(d)
		bubble(t, func(t *testing.T) { shutdownProgram(rec, seed, d) })
		step()
	}
	finishedTwice(rec, step)
}

// finishedTwice reports a subscriber as finished from several goroutines at once.
func finishedTwice(rec *vt.Rec, step func()) {
	bus := eventbus.New()
	const each = 4
	for i := 0; i < rec.Pick(40, 800) && rec.NumViolations() < 5; i++ {
		step()
		rec.Current(fmt.Sprintf("finished at once %d", i))
		var fin [500]eventbus.ShutdownFunc
		for k := range fin {
			_, fin[k] = bus.Subscribe()
		}
		var at atomic.Int64
		var wg sync.WaitGroup
		for j := 0; j < each; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				// all of them arrive at the same subscriber at about the same time
				for k := range fin {
					at.Add(1)
					for at.Load() < int64(k*each+each) && at.Load() > int64(k*each) {
					}
					func() {
						defer func() {
							if p := recover(); p != nil {
								rec.Violation("finished", fmt.Sprintf("reporting a subscriber as finished more than once panicked: %v", p), map[string]interface{}{"round": i, "subscriber": k})
							}
						}()
						fin[k]()
					}()
				}
			}()
		}
		wg.Wait()
		rec.Add("finished_at_once", len(fin))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	if err := bus.Shutdown(ctx); err != nil {
		rec.Violation("finished", "shutdown failed although all subscribers have finished: "+err.Error(), nil)
	}
}

func shutdownProgram(rec *vt.Rec, seed int64, desc string) {
	rng := rand.New(rand.NewSource(seed))
	bus := eventbus.New()
	var tmu sync.Mutex
	var trace []string
	t0 := time.Now()
	say := func(f string, a ...interface{}) {
		tmu.Lock()
		trace = append(trace, fmt.Sprintf("%v ", time.Since(t0))+fmt.Sprintf(f, a...))
		tmu.Unlock()
	}
	fail := func(key, what string) {
		tmu.Lock()
		defer tmu.Unlock()
		rec.Violation(key, what, map[string]interface{}{"case": desc, "program": append([]string{}, trace...)})
	}
	const never = 1000 * time.Hour
	var sdAt time.Time
	var sdStarted atomic.Bool
	stopAll := make(chan struct{})
	var subs []*sub
	var fins []time.Duration
	id := 0
	var idmu sync.Mutex
	afterIDs := map[int]bool{}
	newEvent := func(after bool) eventbus.Event {
		idmu.Lock()
		defer idmu.Unlock()
		e, _, _ := mkEvent(id, rand.New(rand.NewSource(int64(id))))
		if after {
			afterIDs[id] = true
		}
		id++
		return e
	}
	ns := rng.Intn(7)
	if rng.Intn(100) == 0 {
		ns = 100 + rng.Intn(400)
	}
	// sometimes a single subscriber decides the outcome, anywhere among the others
	odd := -1
	if ns > 0 && (ns >= 100 && rng.Intn(3) > 0 || rng.Intn(8) == 0) {
		odd = rng.Intn(ns)
	}
	for k := 0; k < ns; k++ {
		s := &sub{name: fmt.Sprintf("s%d", k), topics: someTopics(rng, 4)}
		s.c, s.done = bus.Subscribe(s.topics...)
		subs = append(subs, s)
		fin := time.Duration(0)
		switch rng.Intn(4) {
		case 0:
			fin = time.Duration(1+rng.Intn(1000)) * time.Millisecond
		case 1:
			if rng.Intn(3) == 0 {
				fin = never
			}
		}
		s.kind = []string{"drain", "drain", "slow", "stuck", "dispatching", "early", "removed"}[rng.Intn(7)]
		if odd >= 0 {
			if k != odd {
				s.kind, fin = "drain", 0
			} else if s.kind == "early" {
				s.kind = "drain"
			}
		}
		if s.kind == "stuck" {
			// does not look at its channel at all until long after shutdown
			fin = never
		}
		if s.kind == "early" {
			fin = 0
		}
		twice := rng.Intn(4) == 0
		switch s.kind {
		case "drain", "removed", "early", "dispatching":
			if s.kind == "early" {
				s.fin.Store(true)
				s.done()
			}
			go func() {
				for e := range s.c {
					s.record(e)
				}
				s.closed = time.Now()
				if s.kind == "dispatching" {
					for k := 0; k < 3; k++ {
						bus.Dispatch(newEvent(true), "a", "b")
					}
				}
				if fin == never {
					<-stopAll
				} else {
					time.Sleep(fin)
				}
				if s.kind != "early" {
					s.fin.Store(true)
					s.done()
				}
				if twice {
					s.done()
				}
			}()
		case "slow":
			go func() {
				for e := range s.c {
					s.record(e)
					time.Sleep(10 * time.Second)
				}
				s.closed = time.Now()
				if fin == never {
					<-stopAll
				}
				s.fin.Store(true)
				s.done()
			}()
			// pending events keep it busy for an amount of time that is not predicted
			if fin != never {
				fin = -1
			}
		case "stuck":
			go func() {
				<-stopAll
				for k := 0; ; k++ {
					if e, ok := <-s.c; ok {
						s.record(e)
						if k > 100 {
							fail("not-closed", "the channel of a stuck subscriber is not closed by shutdown")
							break
						}
						continue
					}
					break
				}
				s.closed = time.Now()
				s.fin.Store(true)
				s.done()
			}()
		}
		fins = append(fins, fin)
		say("subscribe %s fin %v", s, fin)
	}
	for k := rng.Intn(8); k > 0; k-- {
		if rng.Intn(3) == 0 {
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Millisecond)
		}
		tp := someTopics(rng, 3)
		say("dispatch %d %v", id, tp)
		bus.Dispatch(newEvent(false), tp...)
		step()
	}
	for _, s := range subs {
		if s.kind == "removed" {
			say("remove %s", s)
			bus.Unsubscribe(s.c, nil)
			synctest.Wait()
		}
	}
	switch rng.Intn(3) {
	case 0:
		synctest.Wait()
	case 1:
		time.Sleep(time.Duration(rng.Intn(5000)) * time.Millisecond)
	}
	// a removed subscriber may have finished meanwhile; its remaining time counts from its removal
	removedAt := map[*sub]time.Time{}
	for _, s := range subs {
		if s.kind == "removed" {
			removedAt[s] = s.closed
		}
	}
	// background dispatcher running into the shutdown
	var bg sync.WaitGroup
	if rng.Intn(2) == 0 {
		bg.Add(1)
		nd := 1 + rng.Intn(20)
		go func() {
			defer bg.Done()
			for k := 0; k < nd; k++ {
				after := sdStarted.Load() && time.Now().After(sdAt)
				a := time.Now()
				bus.Dispatch(newEvent(after), "a", "c")
				if time.Since(a) > 0 {
					fail("blocked", fmt.Sprintf("Dispatch blocked for %v during shutdown", time.Since(a)))
				}
				if k%4 == 3 {
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	// the context
	var ctx context.Context
	cancel := func() {}
	limit := never
	kind := rng.Intn(5)
	switch kind {
	case 0:
		limit = 500 * time.Hour
		ctx, cancel = context.WithTimeout(context.Background(), limit)
	case 1, 2:
		limit = time.Duration(1+rng.Intn(1500))*time.Millisecond + time.Microsecond
		ctx, cancel = context.WithTimeout(context.Background(), limit)
	case 3:
		limit = time.Duration(1+rng.Intn(1500))*time.Millisecond + time.Microsecond
		var c context.CancelFunc
		ctx, c = context.WithCancel(context.Background())
		cancel = c
		go func() { time.Sleep(limit); c() }()
	case 4:
		limit = 0
		var c context.CancelFunc
		ctx, c = context.WithCancel(context.Background())
		cancel = c
		c()
	}
	sdAt = time.Now()
	sdStarted.Store(true)
	say("shutdown, context ends after %v", limit)
	calls := 1
	conc := rng.Intn(4) == 0
	var second error
	var secondDone = make(chan time.Duration, 1)
	if conc {
		calls++
		go func() {
			a := time.Now()
			c2, cc := context.WithTimeout(context.Background(), 2*time.Second+time.Microsecond)
			second = bus.Shutdown(c2)
			cc()
			secondDone <- time.Since(a)
		}()
	}
	err := bus.Shutdown(ctx)
	took := time.Since(sdAt)
	unfinished := 0
	for _, s := range subs {
		if !s.fin.Load() {
			unfinished++
		}
	}
	say("shutdown returned %v", err)
	step()
	// expectation
	max, fuzzy := time.Duration(0), false
	for i, s := range subs {
		f := fins[i]
		if s.kind == "removed" && f != never {
			f = removedAt[s].Add(f).Sub(sdAt)
		}
		if f == -1 {
			fuzzy = true
			continue
		}
		if f > max {
			max = f
		}
	}
	switch {
	case err == nil:
		if unfinished > 0 {
			fail("early", fmt.Sprintf("shutdown returned without error while %d subscribers had not finished", unfinished))
		}
		if !fuzzy && took != max && !(max < 0 && took == 0) {
			fail("time", fmt.Sprintf("shutdown returned after %v although the last subscriber finished after %v", took, max))
		}
		if took > limit {
			fail("late", fmt.Sprintf("shutdown returned without error after %v although its context ended after %v", took, limit))
		}
	case errors.Is(err, eventbus.ErrShutdownTimeout):
		if took != limit {
			fail("deadline", fmt.Sprintf("shutdown returned the timeout error after %v although its context ended after %v", took, limit))
		}
		if !fuzzy && max < limit {
			fail("spurious", fmt.Sprintf("shutdown returned the timeout error although every subscriber finished after %v, before the context ended after %v", max, limit))
		}
	default:
		fail("error", "shutdown returned an unknown error: "+err.Error())
	}
	if conc {
		d := <-secondDone
		switch {
		case second == nil:
			for _, s := range subs {
				if !s.fin.Load() {
					fail("early", "a repeated shutdown returned without error while "+s.String()+" had not finished")
				}
			}
		case d != 2*time.Second+time.Microsecond:
			fail("deadline", fmt.Sprintf("a repeated shutdown returned the timeout error after %v instead of 2s", d))
		}
	}
	cancel()
	bg.Wait()
	// dispatching afterwards
	for k := 0; k < 3; k++ {
		a := time.Now()
		bus.Dispatch(newEvent(true), allTopics...)
		if time.Since(a) > 0 {
			fail("blocked", "Dispatch blocked after shutdown")
		}
	}
	synctest.Wait()
	// every channel is closed at the moment of shutdown
	for _, s := range subs {
		if s.kind == "drain" || s.kind == "dispatching" || s.kind == "early" {
			if s.closed.IsZero() || !s.closed.Equal(sdAt) {
				fail("not-closed", fmt.Sprintf("subscriber %s was signalled at %v, shutdown was at %v", s, s.closed.Sub(t0), sdAt.Sub(t0)))
			}
		}
	}
	if rng.Intn(3) == 0 {
		calls++
		c2, cc := context.WithTimeout(context.Background(), time.Second)
		e2 := bus.Shutdown(c2)
		cc()
		for _, s := range subs {
			if e2 == nil && !s.fin.Load() {
				fail("early", "a repeated shutdown returned without error while "+s.String()+" had not finished")
			}
		}
	}
	close(stopAll)
	time.Sleep(2000 * time.Hour)
	synctest.Wait()
	for _, s := range subs {
		if !s.fin.Load() || s.closed.IsZero() {
			fail("not-closed", fmt.Sprintf("subscriber %s never saw its channel closed", s))
		}
		seen := map[int]int{}
		for _, g := range s.got {
			seen[g.id]++
			if afterIDs[g.id] {
				fail("after-shutdown", fmt.Sprintf("subscriber %s received event %d, dispatched after shutdown", s, g.id))
			}
		}
		for i, n := range seen {
			if n > 4 {
				fail("dup", fmt.Sprintf("subscriber %s received event %d %d times", s, i, n))
			}
		}
	}
	if l := leftovers("pkg/eventbus"); len(l) > 0 {
		fail("goroutines", fmt.Sprintf("%d goroutines of the bus remain after shutdown and after all subscribers finished:\n%s", len(l), vt.Trim(l[0], 1500)))
	}
	res := "ok"
	if err != nil {
		res = "timeout"
	}
	rec.Add("shutdown_"+res, 1)
	rec.Add("shutdown_calls", calls)
	sig := fmt.Sprintf("%s %v %v", res, took, unfinished)
	for _, s := range subs {
		sig += s.kind + s.order()
	}
	rec.Case(sig, ns > 0, map[string]interface{}{"program": trace})
}
