package rt

import (
	"reflect"
	"unsafe"
)

// Channel operations of the code under test. One task runs at a time, so an
// operation that can proceed at once does so on the real channel; otherwise
// the task blocks in the scheduler. A send and a receive that must meet on an
// unbuffered channel are paired: the later one wakes the earlier, which then
// performs its real operation against it, giving the race detector the same
// edges a real run has.

type waiter struct {
	task int
	ch   unsafe.Pointer
	recv bool
	met  bool
}

var waiters [MaxTasks * 4]waiter
var nWaiters int

func chanPtr(c any) unsafe.Pointer { return reflect.ValueOf(c).UnsafePointer() }

//go:norace
func addWaiter(ch unsafe.Pointer, recv bool) {
	if nWaiters >= len(waiters) {
		panic("rt: too many channel waiters")
	}
	w := &waiters[nWaiters]
	nWaiters++
	w.task, w.ch, w.recv, w.met = cur, ch, recv, false
}

//go:norace
func dropWaiters(t int) (met bool) {
	j := 0
	for i := 0; i < nWaiters; i++ {
		if waiters[i].task == t {
			met = met || waiters[i].met
			continue
		}
		waiters[j] = waiters[i]
		j++
	}
	nWaiters = j
	return
}

// meet finds a task waiting on the other side of ch.
//
//go:norace
func meet(ch unsafe.Pointer, wantRecv bool) int {
	for i := 0; i < nWaiters; i++ {
		w := &waiters[i]
		if w.ch == ch && w.recv == wantRecv && w.task != cur && !w.met {
			return i
		}
	}
	return -1
}

//go:norace
func waiterTask(i int) int { waiters[i].met = true; return waiters[i].task }

//go:norace
func wakeChan(ch unsafe.Pointer) {
	for i := 0; i < nWaiters; i++ {
		if waiters[i].ch == ch {
			WakeTask(waiters[i].task)
		}
	}
}

// letMeet lets the paired task run its real operation while the current task
// performs its own; control stays with the current task, and the other becomes
// ready once its operation is over.
//
//go:norace
func letMeet(other int) {
	raceOff()
	tasks[other].ch <- struct{}{}
	raceOn()
}

//go:norace
func parkAfterMeet(me int) {
	tasks[me].state = sReady
	raceOff()
	metCh <- struct{}{}
	<-tasks[me].ch
	raceOn()
}

//go:norace
func waitMet() {
	raceOff()
	<-metCh
	raceOn()
}

var metCh = make(chan struct{}, 1)

// Send is ch <- v.
func Send[T any](c chan<- T, v T) {
	if !InTask() {
		c <- v
		return
	}
	Yield()
	p := chanPtr(c)
	for {
		select {
		case c <- v:
			wakeChan(p)
			return
		default:
		}
		if cap(c) == 0 && c != nil {
			if w := meet(p, true); w >= 0 {
				o := waiterTask(w)
				letMeet(o)
				c <- v
				waitMet()
				return
			}
		}
		addWaiter(p, false)
		me := Cur()
		Block(uintptr(p))
		if dropWaiters(me) {
			c <- v
			parkAfterMeet(me)
			return
		}
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](c <-chan T) (T, bool) {
	if !InTask() {
		v, ok := <-c
		return v, ok
	}
	Yield()
	p := chanPtr(c)
	for {
		select {
		case v, ok := <-c:
			wakeChan(p)
			return v, ok
		default:
		}
		if cap(c) == 0 && c != nil {
			if w := meet(p, false); w >= 0 {
				o := waiterTask(w)
				letMeet(o)
				v, ok := <-c
				waitMet()
				return v, ok
			}
		}
		addWaiter(p, true)
		me := Cur()
		Block(uintptr(p))
		if dropWaiters(me) {
			v, ok := <-c
			parkAfterMeet(me)
			return v, ok
		}
	}
}

// Recv is <-ch.
func Recv[T any](c <-chan T) T { v, _ := Recv2(c); return v }

// Close is close(ch).
func Close[T any](c chan<- T) {
	close(c)
	if InTask() {
		wakeChan(chanPtr(c))
	}
}

// Sel is a select statement in progress.
type Sel struct {
	cases []selCase
	def   bool
}

type selCase struct {
	ch   reflect.Value
	recv bool
	val  reflect.Value
	got  reflect.Value
	ok   bool
}

// SelR is the receive case of a select.
type SelR[T any] struct {
	s *Sel
	i int
}

// NewSel begins a select statement.
func NewSel(def bool) *Sel { return &Sel{def: def} }

// SelRecv adds a receive case.
func SelRecv[T any](s *Sel, c <-chan T) SelR[T] {
	s.cases = append(s.cases, selCase{ch: reflect.ValueOf(c), recv: true})
	return SelR[T]{s, len(s.cases) - 1}
}

// SelSend adds a send case.
func SelSend[T any](s *Sel, c chan<- T, v T) {
	s.cases = append(s.cases, selCase{ch: reflect.ValueOf(c), val: reflect.ValueOf(&v).Elem()})
}

// Get returns the received value.
func (r SelR[T]) Get() (v T, ok bool) {
	c := r.s.cases[r.i]
	if c.got.IsValid() {
		v, _ = c.got.Interface().(T)
	}
	return v, c.ok
}

func (s *Sel) try(i int) bool {
	c := &s.cases[i]
	if c.ch.IsNil() {
		return false
	}
	if c.recv {
		v, ok := c.ch.TryRecv()
		if v.IsValid() { // received, or closed (zero value, false)
			c.got, c.ok = v, ok
			return true
		}
		return false
	}
	return c.ch.TrySend(c.val)
}

func (s *Sel) real(i int) {
	c := &s.cases[i]
	if c.recv {
		c.got, c.ok = c.ch.Recv()
	} else {
		c.ch.Send(c.val)
	}
}

// Choose performs one ready case and returns its index, -1 for the default.
func (s *Sel) Choose() int {
	in := InTask()
	if in {
		Yield()
	} else if !s.def {
		// outside a run: a real select
		cs := make([]reflect.SelectCase, len(s.cases))
		for i, c := range s.cases {
			cs[i].Chan = c.ch
			if c.recv {
				cs[i].Dir = reflect.SelectRecv
			} else {
				cs[i].Dir, cs[i].Send = reflect.SelectSend, c.val
			}
		}
		i, v, ok := reflect.Select(cs)
		s.cases[i].got, s.cases[i].ok = v, ok
		return i
	}
	for {
		n := len(s.cases)
		off := 0
		if n > 0 && in {
			off = int(Rand() % uint64(n))
		}
		for k := 0; k < n; k++ {
			i := (k + off) % n
			if s.try(i) {
				if in {
					wakeChan(s.cases[i].ch.UnsafePointer())
				}
				return i
			}
			if in && !s.cases[i].ch.IsNil() && s.cases[i].ch.Cap() == 0 {
				if w := meet(s.cases[i].ch.UnsafePointer(), !s.cases[i].recv); w >= 0 {
					o := waiterTask(w)
					letMeet(o)
					s.real(i)
					waitMet()
					return i
				}
			}
		}
		if s.def {
			return -1
		}
		for i := range s.cases {
			if !s.cases[i].ch.IsNil() {
				addWaiter(s.cases[i].ch.UnsafePointer(), s.cases[i].recv)
			}
		}
		me := Cur()
		Block(1)
		if i := s.metCase(me); i >= 0 {
			s.real(i)
			parkAfterMeet(me)
			return i
		}
	}
}

//go:norace
func (s *Sel) metCase(me int) int {
	r := -1
	j := 0
	for i := 0; i < nWaiters; i++ {
		if waiters[i].task == me {
			if waiters[i].met {
				for k := range s.cases {
					if s.cases[k].ch.UnsafePointer() == waiters[i].ch && s.cases[k].recv == waiters[i].recv {
						r = k
					}
				}
			}
			continue
		}
		waiters[j] = waiters[i]
		j++
	}
	nWaiters = j
	return r
}
