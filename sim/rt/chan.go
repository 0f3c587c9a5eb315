package rt

import (
	"reflect"
)

// Channel operations of the simulated code. Only one task runs at a time, so an
// operation that cannot proceed parks its task with the scheduler instead of
// blocking for real; values are handed over between parked tasks here. Buffers
// and the closed state are those of the real channel.

// waiting is a task parked in one operation, or in all the cases of a select.
type waiting struct {
	t     *Task
	fired int // the case that went ahead, or -1
	panik string
}

func (s *waiting) live() bool { return s.fired < 0 && !s.t.done && !s.t.p.Dead }

func (s *waiting) fire(i int) {
	s.fired = i
	s.t.p.w.ready(s.t, 0)
}

type entry struct {
	s    *waiting
	i    int
	take func(v any, ok bool) // receiver: accept a value
	give func() any           // sender: the value
}

type chanQ struct{ recv, send []*entry }

var chans = map[uintptr]*chanQ{}

type chanKey uintptr

func keyOf(c any) chanKey { return chanKey(reflect.ValueOf(c).Pointer()) }

func queue(c any) *chanQ {
	k := reflect.ValueOf(c).Pointer()
	q := chans[k]
	if q == nil {
		q = &chanQ{}
		chans[k] = q
	}
	return q
}

func peek(c any) *chanQ { return chans[reflect.ValueOf(c).Pointer()] }

func pop(l *[]*entry) *entry {
	for len(*l) > 0 {
		e := (*l)[0]
		*l = append([]*entry(nil), (*l)[1:]...)
		if e.s.live() {
			return e
		}
	}
	return nil
}

func tidy(c any) {
	k := reflect.ValueOf(c).Pointer()
	q := chans[k]
	if q == nil {
		return
	}
	for _, l := range []*[]*entry{&q.recv, &q.send} {
		var r []*entry
		for _, e := range *l {
			if e.s.live() {
				r = append(r, e)
			}
		}
		*l = r
	}
	if len(q.recv)+len(q.send) == 0 {
		delete(chans, k)
	}
}

// Case is one communication of a select statement.
type Case interface {
	try() bool
	enlist(s *waiting, i int)
	done()
	key() chanKey
}

// RecvC is a receive operation and its result.
type RecvC[T any] struct {
	c  <-chan T
	v  T
	ok bool
}

func RecvCase[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{c: c} }
func (r *RecvC[T]) Val() T                 { return r.v }
func (r *RecvC[T]) Val2() (T, bool)        { return r.v, r.ok }

func (r *RecvC[T]) set(v any, ok bool) {
	var z T
	if r.v = z; v != nil {
		r.v = v.(T)
	}
	r.ok = ok
}

func (r *RecvC[T]) try() bool {
	if r.c == nil {
		return false
	}
	q := peek(r.c)
	select {
	case r.v, r.ok = <-r.c:
		if q != nil && r.ok { // room for a parked sender
			if e := pop(&q.send); e != nil {
				e.take(nil, true)
				e.s.fire(e.i)
			}
		}
		return true
	default:
	}
	if q != nil {
		if e := pop(&q.send); e != nil {
			r.set(e.give(), true)
			e.s.fire(e.i)
			return true
		}
	}
	return false
}

func (r *RecvC[T]) enlist(s *waiting, i int) {
	if r.c != nil {
		q := queue(r.c)
		q.recv = append(q.recv, &entry{s: s, i: i, take: r.set})
	}
}

func (r *RecvC[T]) key() chanKey { return keyOf(r.c) }
func (x *SendC[T]) key() chanKey { return keyOf(x.c) }

func (r *RecvC[T]) done() {
	if r.c != nil {
		tidy(r.c)
	}
}

// SendC is a send operation.
type SendC[T any] struct {
	c chan<- T
	v T
}

func To[T any](c chan<- T) *SendC[T]    { return &SendC[T]{c: c} }
func (x *SendC[T]) Of(v T) *SendC[T]    { x.v = v; return x }
func (x *SendC[T]) Send(v T)            { x.v = v; perform(x) }
func (x *SendC[T]) push(v any, ok bool) { x.c <- x.v }
func (x *SendC[T]) value() any          { return x.v }

func (x *SendC[T]) try() bool {
	if x.c == nil {
		return false
	}
	if q := peek(x.c); q != nil {
		if e := pop(&q.recv); e != nil {
			e.take(x.v, true)
			e.s.fire(e.i)
			return true
		}
	}
	select {
	case x.c <- x.v:
		return true
	default:
	}
	return false
}

func (x *SendC[T]) enlist(s *waiting, i int) {
	if x.c != nil {
		q := queue(x.c)
		q.send = append(q.send, &entry{s: s, i: i, take: x.push, give: x.value})
	}
}

func (x *SendC[T]) done() {
	if x.c != nil {
		tidy(x.c)
	}
}

// Close closes a channel and releases whoever is parked at it.
func Close[T any](c chan<- T) {
	Rel(keyOf(c))
	close(c)
	q := peek(c)
	if q == nil {
		return
	}
	for e := pop(&q.recv); e != nil; e = pop(&q.recv) {
		e.take(nil, false)
		e.s.fire(e.i)
	}
	for e := pop(&q.send); e != nil; e = pop(&q.send) {
		e.s.panik = "send on closed channel"
		e.s.fire(e.i)
	}
	tidy(c)
}

// Select performs one of the cases and returns its number; -1 stands for the
// default clause.
func Select(def bool, cs ...Case) int {
	for _, c := range cs {
		Rel(c.key())
	}
	defer func() {
		for _, c := range cs {
			Acq(c.key())
		}
	}()
	t := Cur()
	n := len(cs)
	from := 0
	if n > 1 && t != nil {
		from = int(t.p.w.D.choose("select/"+t.p.Name+"/"+itoa(t.idx), 0, func(h uint64) int64 { return int64(h % uint64(n)) })) % n
	}
	for k := 0; k < n; k++ {
		if i := (from + k) % n; cs[i].try() {
			return i
		}
	}
	if def {
		return -1
	}
	if t == nil {
		panic("rt: blocking outside of a task")
	}
	s := &waiting{t: t, fired: -1}
	for i, c := range cs {
		c.enlist(s, i)
	}
	t.park("channel")
	for _, c := range cs {
		c.done()
	}
	if s.panik != "" {
		panic(s.panik)
	}
	return s.fired
}

func perform(c Case) {
	if Cur() == nil { // package initialisation, or a timer
		if !c.try() {
			panic("rt: blocking outside of a task")
		}
		return
	}
	Rel(c.key())
	if !c.try() {
		Select(false, c)
	}
	Acq(c.key())
}

// TrySend sends if that is possible at once.
func TrySend[T any](c chan<- T, v T) bool { return To(c).Of(v).try() }

func Recv[T any](c <-chan T) T {
	r := RecvCase(c)
	perform(r)
	return r.v
}

func Recv2[T any](c <-chan T) (T, bool) {
	r := RecvCase(c)
	perform(r)
	return r.v, r.ok
}

// RelChan is Rel for a channel something will be sent to later.
func RelChan[T any](c chan T) {
	if c != nil {
		Rel(keyOf(c))
	}
}
