package inproc

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"

	"verif/harness/vt"
)

type inner struct {
	A int
	B string
	C []byte
}

type Outer struct {
	N    int64
	U    uint32
	F    float64
	S    string
	Ok   bool
	L    []string
	M    map[string]int
	In   inner2
	P    *Inner3
	Arr  [3]int
	When time.Time
	I    interface{}
}

type inner2 struct{ X, Y float32 }
type Inner3 struct {
	A int
	S []Outer4
}
type Outer4 struct {
	K string
	V map[int]string
}
type hidden struct{ a, b int }
type withChan struct {
	A int
	C chan int
}
type strT string
type sliceT []int
type mapT map[string]bool

func rstr(r *rand.Rand) string {
	n := r.Intn(20)
	if r.Intn(20) == 0 {
		n = r.Intn(100000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return string(b)
}

// value makes a random encodable value (slices and maps inside others are nil or non-empty, pointers inside point to non-zero
// values: gob does not distinguish the others).
func value(r *rand.Rand) interface{} {
	switch r.Intn(19) {
	case 17: // nothing in it, which is not the same as no payload
		return []interface{}{"", 0, 0.0, false, []byte{}, []string{}, []inner{}, map[string]int{}, mapT{}, strT(""), inner{}, [4]string{}, uint64(0), time.Time{}}[r.Intn(14)]
	case 0:
		return r.Int() - r.Int()
	case 1:
		return rstr(r)
	case 2:
		return append([]byte{byte(r.Intn(256))}, rstr(r)...)
	case 3:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(600)-300))
	case 4:
		return r.Intn(2) == 0
	case 5:
		return outer(r)
	case 6:
		o := outer(r)
		return &o
	case 7:
		return time.Unix(r.Int63n(1e10), r.Int63n(1e9)).UTC()
	case 8:
		m := map[string]int{"k": 1}
		for k := r.Intn(5); k > 0; k-- {
			m[rstr(r)] = r.Int()
		}
		return m
	case 9:
		return []inner{{r.Int(), rstr(r), []byte{1}}, {}}
	case 10:
		return strT(rstr(r))
	case 11:
		return sliceT{r.Int(), 0, -1}
	case 12:
		return mapT{rstr(r): true, "x": false}
	case 13:
		return []Inner3{{A: 7, S: []Outer4{{K: rstr(r), V: map[int]string{1: "a", 2: rstr(r)}}}}}
	case 14:
		return uint64(r.Uint64())
	case 15:
		return [4]string{"", rstr(r), "x", ""}
	case 16:
		return inner{r.Int(), rstr(r), nil}
	default:
		i := inner{r.Int() + 1, rstr(r), []byte{0}}
		return &i
	}
}

func outer(r *rand.Rand) Outer {
	o := Outer{N: r.Int63() - r.Int63(), U: r.Uint32(), F: r.ExpFloat64(), S: rstr(r), Ok: r.Intn(2) == 0, In: inner2{1.5, float32(r.NormFloat64())}, Arr: [3]int{0, r.Int(), 2}}
	if r.Intn(2) == 0 {
		o.L = []string{"", rstr(r), "z"}
	}
	if r.Intn(2) == 0 {
		o.M = map[string]int{"": 0, rstr(r): 3}
	}
	if r.Intn(2) == 0 {
		o.P = &Inner3{A: 1, S: []Outer4{{K: "q"}}}
	}
	if r.Intn(2) == 0 {
		o.When = time.Unix(r.Int63n(1e10), 0).UTC()
	}
	switch r.Intn(4) {
	case 0:
		o.I = r.Int()
	case 1:
		o.I = rstr(r)
	}
	return o
}

// fresh makes a value of a struct type (or pointer to, slice of, it) that this process has not used yet.
var freshN int

func freshType(r *rand.Rand) reflect.Type {
	freshN++
	return reflect.StructOf([]reflect.StructField{
		{Name: fmt.Sprintf("F%d", freshN), Type: reflect.TypeOf("")},
		{Name: "N", Type: reflect.TypeOf(0)},
	})
}

func freshValue(t reflect.Type, r *rand.Rand, form int) interface{} {
	v := reflect.New(t)
	v.Elem().Field(0).SetString(rstr(r) + "x")
	v.Elem().Field(1).SetInt(r.Int63())
	switch form {
	case 0:
		return v.Elem().Interface()
	case 1:
		return v.Interface()
	case 2:
		s := reflect.MakeSlice(reflect.SliceOf(t), 0, 1)
		return reflect.Append(s, v.Elem()).Interface()
	default:
		s := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(t)), 0, 1)
		return reflect.Append(s, v).Interface()
	}
}

// deepCopy copies by reflection, independent of gob.
func deepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			out.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, deepCopy(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// scramble overwrites everything reachable from v.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scramble(v.Field(i))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(0xEE)
		}
	}
}

func same(a, b interface{}) bool {
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	if x, y := reflect.ValueOf(a), reflect.ValueOf(b); x.Kind() == reflect.Slice && y.Kind() == reflect.Slice && x.Type() == y.Type() && x.Len() == 0 && y.Len() == 0 {
		return true // gob does not distinguish these
	}
	return reflect.DeepEqual(a, b)
}

// brief stands for a value in texts.
func brief(v interface{}) interface{} {
	switch x := v.(type) {
	case []byte:
		if len(x) > 200000 {
			return fmt.Sprint(len(x), " bytes ", x[:20])
		}
	case string:
		if len(x) > 200000 {
			return fmt.Sprint(len(x), " bytes ", x[:20])
		}
	case []inner:
		if len(x) > 0 && len(x[0].C) > 60000 {
			return fmt.Sprint(len(x), " records of ", len(x[0].C), " bytes")
		}
	case []Outer4:
		return fmt.Sprint(len(x), " records")
	}
	return v
}

// C19
func TestC19(t *testing.T) {
	rec := vt.New(t, "C19", "a case creates an event from a generated value (also of types never used before, as value, pointer or slice in any order), overwrites the original, and decodes it repeatedly and concurrently; or creates/decodes something that must be refused; distinct by type, order of use and content, non-trivial when a payload was decoded or a refusal observed")
	defer rec.Finish()
	var mu sync.Mutex
	cur := ""
	watch(rec, func() string { mu.Lock(); defer mu.Unlock(); return cur })
	r := rec.Rng("values")
	// events kept while others are created, to be decoded much later
	type kept struct {
		e    eventbus.Event
		tag  eventbus.EventType
		want interface{}
		desc string
		at   int
	}
	var held []kept
	late := func(k kept, now int) {
		d := fmt.Sprintf("%s: %T decoded after %d further cases", k.desc, k.want, now-k.at)
		rec.Guard("panic-late", func() interface{} { return d }, func() {
			p := reflect.New(reflect.TypeOf(k.want))
			if err := k.e.Decode(p.Interface()); err != nil {
				rec.Violation("late", "decoding an event after others had been created failed: "+err.Error(), d)
			} else if !same(k.want, p.Elem().Interface()) || k.e.Type() != k.tag {
				rec.Violation("late", "an event decoded after others had been created differs from its original: "+vt.Trim(fmt.Sprintf("%+v", p.Elem().Interface()), 400), d)
			}
			rec.Add("late_decodes", 1)
		})
	}
	cases := 0
	roundtrip := func(tag eventbus.EventType, v interface{}, desc string) {
		step()
		mu.Lock()
		cur = desc
		mu.Unlock()
		rv := reflect.ValueOf(v)
		orig := deepCopy(rv).Interface()
		wit := func() interface{} {
			return map[string]string{"case": desc, "value": vt.Trim(fmt.Sprintf("%T %+v", orig, brief(orig)), 800)}
		}
		rec.Guard("panic", wit, func() {
			e, err := eventbus.NewEvent(tag, v)
			if err != nil {
				rec.Violation("refused", "creating an event from an encodable value failed: "+err.Error(), wit())
				return
			}
			if rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Slice || rv.Kind() == reflect.Map {
				scramble(rv)
			}
			base := reflect.TypeOf(orig)
			if base.Kind() == reflect.Ptr {
				base = base.Elem()
			}
			want := orig
			if reflect.TypeOf(orig).Kind() == reflect.Ptr {
				want = reflect.ValueOf(orig).Elem().Interface()
			}
			var wg sync.WaitGroup
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func(e eventbus.Event) {
					defer wg.Done()
					for j := 0; j < 2; j++ {
						p := reflect.New(base)
						if err := e.Decode(p.Interface()); err != nil {
							rec.Violation("decode", "decoding into the original type failed: "+err.Error(), wit())
							return
						}
						if !same(want, p.Elem().Interface()) {
							rec.Violation("changed", "the decoded value differs from the original: "+vt.Trim(fmt.Sprintf("%+v", brief(p.Elem().Interface())), 500), wit())
							return
						}
						scramble(p.Elem())
						if e.Type() != tag || e.String() != string(tag) {
							rec.Violation("tag", fmt.Sprintf("the event's type is %q instead of %q", e.Type(), tag), wit())
							return
						}
					}
				}(e)
			}
			wg.Wait()
			cases++
			k := kept{e, tag, want, desc, cases}
			if len(held) < 64 {
				held = append(held, k)
			} else {
				j := r.Intn(64)
				late(held[j], cases)
				held[j] = k
			}
			// decoding into the pointer type works as well
			if r.Intn(4) == 0 {
				pp := reflect.New(reflect.PointerTo(base))
				if err := e.Decode(pp.Interface()); err != nil || !same(want, pp.Elem().Elem().Interface()) {
					rec.Violation("decode", fmt.Sprintf("decoding into a pointer to the original type failed: %v", err), wit())
				}
			}
			rec.Seen("payload_types", fmt.Sprintf("%T", orig))
			rec.Case(vt.Trim(fmt.Sprintf("%s %s %+v", desc, tag, brief(want)), 300000), true, vt.Trim(fmt.Sprintf("%s: %T %+v", desc, orig, brief(orig)), 300))
		})
	}
	refuse := func(kind string, v interface{}) {
		step()
		wit := func() interface{} { return kind + fmt.Sprintf(" %T", v) }
		rec.Guard("panic-new", wit, func() {
			_, err := eventbus.NewEvent("bad", v)
			if err == nil {
				rec.Violation("accepted:"+kind, "creating an event from an unencodable value ("+kind+") returned no error", wit())
			}
			rec.Add("refused_values", 1)
			rec.Case("refuse "+kind, true, "refused: "+kind)
		})
	}
	incompatible := func(v interface{}, recv interface{}) {
		step()
		d := fmt.Sprintf("%T into %T", v, recv)
		rec.Guard("panic-decode", func() interface{} { return d }, func() {
			e, err := eventbus.NewEvent("x", v)
			if err != nil {
				rec.Violation("refused", "creating an event from an encodable value failed: "+err.Error(), d)
				return
			}
			if err := e.Decode(recv); err == nil {
				rec.Violation("incompatible", "decoding "+d+" returned no error", d)
			}
			rec.Add("incompatible_decodes", 1)
			rec.Case("incompatible "+d, true, "refused: "+d)
		})
	}
	n := rec.Pick(4000, 150000)
	for i := 0; i < n && rec.NumViolations() < 5; i++ {
		rec.Current(fmt.Sprintf("case %d", i))
		switch r.Intn(12) {
		default:
			roundtrip(eventbus.EventType(fmt.Sprintf("t%d%s", r.Intn(9), []string{"", "é", " x", " ", "\n", "X", "\x00", "\xff", "/a.b", strings.Repeat(".long", 60+r.Intn(200)), strings.Repeat("tag", 30000)}[r.Intn(11)])), value(r), "value")
		case 0, 1, 2:
			// several forms of a type that was never used before, in random order
			ty := freshType(r)
			order := r.Perm(4)[:1+r.Intn(4)]
			for _, f := range order {
				roundtrip("fresh", freshValue(ty, r, f), fmt.Sprintf("forms %v of a new type", order))
			}
		case 3:
			var np *Outer
			var ni *int
			ty := freshType(r)
			bad := []struct {
				k string
				v interface{}
			}{{"channel", make(chan int)}, {"function", func() {}}, {"no exported fields", hidden{1, 2}}, {"nil pointer", np},
				{"nil pointer to int", ni}, {"slice with nil pointer", []*inner{{A: 1}, nil}}, {"error value", errors.New("x")}, {"nil pointer to a new type", reflect.Zero(reflect.PointerTo(ty)).Interface()},
				{"map with nil pointer", map[string]*inner{"a": nil}}, {"map of channels", map[string]chan int{"a": nil}}, {"slice of functions", []func(){nil}}}
			b := bad[r.Intn(len(bad))]
			refuse(b.k, b.v)
			if r.Intn(3) == 0 {
				roundtrip("afterwards", freshValue(ty, r, r.Intn(3)), "value of a type refused before")
			}
		case 4:
			var s string
			var n int
			var f float64
			var o Outer
			var l []int
			var m map[string]int
			var b bool
			type no struct{ Zz, Yy int }
			switch r.Intn(10) {
			case 0:
				incompatible(rstr(r), &n)
			case 1:
				incompatible(5, &s)
			case 2:
				incompatible(outer(r), &s)
			case 3:
				incompatible([]string{"a"}, &l)
			case 4:
				incompatible(map[string]int{"a": 1}, &l)
			case 5:
				incompatible("abc", &o)
			case 6:
				incompatible(1.5, &m)
			case 7:
				incompatible(outer(r), &no{})
			case 8:
				incompatible(7, n)
			case 9:
				incompatible(true, &f)
				incompatible(3, &b)
				incompatible("x", (*string)(nil))
				incompatible("x", o)
			}
		}
	}
	// large payloads
	for _, n := range []int{1 << 16, 1<<20 - 1, 1 << 20, 3<<20 + 7, rec.Pick(40<<20, 300<<20)} {
		b := make([]byte, n)
		r.Read(b)
		roundtrip(" large ", b, fmt.Sprintf("%d bytes", n))
		roundtrip("", string(b), fmt.Sprintf("text of %d bytes", n))
		roundtrip("large", []inner{{1, "a", b}, {2, string(b[:n/2]), nil}}, fmt.Sprintf("records with %d bytes", n))
	}
	many := make([]Outer4, 100000)
	for i := range many {
		many[i] = Outer4{K: fmt.Sprint(i), V: map[int]string{i: "x"}}
	}
	roundtrip("many", many, "100000 records")
	held = held[:min(len(held), 64)]
	for _, k := range held {
		late(k, cases)
	}
	concurrentEvents(rec)
	// events without payload keep their tag
	e, err := eventbus.NewEvent("empty", nil)
	if err != nil || e.Type() != "empty" {
		rec.Violation("empty", fmt.Sprintf("an event without payload has type %q, error %v", e.Type(), err), nil)
	}
	var so string
	var io int
	var oo Outer
	for _, p := range []interface{}{&so, &io, &oo} {
		rec.Guard("panic-decode", func() interface{} { return fmt.Sprintf("no payload into %T", p) }, func() {
			if err := e.Decode(p); err == nil {
				rec.Violation("incompatible", fmt.Sprintf("decoding an event without payload into %T returned no error", p), nil)
			}
			rec.Add("incompatible_decodes", 1)
		})
	}
}

// concurrentEvents creates, hands over and decodes events of many types from several goroutines at once.
func concurrentEvents(rec *vt.Rec) {
	rounds := rec.Pick(20, 400)
	for round := 0; round < rounds && rec.NumViolations() < 5; round++ {
		step()
		type msg struct {
			e    eventbus.Event
			tag  eventbus.EventType
			want interface{}
		}
		ch := make(chan msg, 100)
		var makers, readers sync.WaitGroup
		for g := 0; g < 4; g++ {
			makers.Add(1)
			r := rec.Rng(fmt.Sprintf("maker%d.%d", round, g))
			go func(g int) {
				defer makers.Done()
				for i := 0; i < 40; i++ {
					v := value(r)
					rv := reflect.ValueOf(v)
					want := deepCopy(rv).Interface()
					if rv.Kind() == reflect.Ptr {
						want = reflect.ValueOf(want).Elem().Interface()
					}
					tag := eventbus.EventType(fmt.Sprintf("g%d-%d", g, i))
					rec.Guard("panic-concurrent", func() interface{} { return fmt.Sprintf("%T", v) }, func() {
						e, err := eventbus.NewEvent(tag, v)
						if err != nil {
							rec.Violation("refused", "creating an event concurrently with others failed: "+err.Error(), fmt.Sprintf("%T", v))
							return
						}
						if rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Slice || rv.Kind() == reflect.Map {
							scramble(rv)
						}
						m := msg{e, tag, want}
						ch <- m
						ch <- m
					})
				}
			}(g)
		}
		for g := 0; g < 4; g++ {
			readers.Add(1)
			go func() {
				defer readers.Done()
				for m := range ch {
					rec.Guard("panic-concurrent", func() interface{} { return fmt.Sprintf("%T", m.want) }, func() {
						p := reflect.New(reflect.TypeOf(m.want))
						if err := m.e.Decode(p.Interface()); err != nil {
							rec.Violation("concurrent", "decoding while other events were created failed: "+err.Error(), fmt.Sprintf("%T", m.want))
						} else if !same(m.want, p.Elem().Interface()) || m.e.Type() != m.tag {
							rec.Violation("concurrent", "an event decoded while others were created differs from its original", vt.Trim(fmt.Sprintf("%+v / %+v", m.want, p.Elem().Interface()), 600))
						}
						rec.Add("concurrent_decodes", 1)
					})
				}
			}()
		}
		makers.Wait()
		close(ch)
		readers.Wait()
		rec.Case(fmt.Sprintf("concurrent round %d", round), true, "4 goroutines create 160 events, 4 others decode each twice")
	}
}
