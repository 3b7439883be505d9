package vshim

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// A controlled scheduler. The threads of a program run one at a time; at every scheduling point (before a
// lock is taken and, if asked for, before every statement) a recorded choice says which thread goes on.

type schedThread struct {
	id   int
	wake chan struct{}
	done bool
	ok   func() bool // what it waits for
	at   string
}

// Point is one choice that was made.
type Point struct {
	N       int  // enabled threads
	Cur     bool // the running thread is the first of them
	Chosen  int
	Preempt int // preemptions before this point
}

type Sched struct {
	threads []*schedThread
	cur     *schedThread
	prefix  []int
	steps   bool
	aborted atomic.Bool
	over    chan struct{}

	Points   []Point
	Preempts int
	Steps    int
	Deadlock string
	Hang     string
	Clock    int // counts beginnings and ends of calls
}

var active atomic.Pointer[Sched]

type abortRun struct{}

// RunThreads runs the functions as threads under the choices of prefix (the first enabled thread after it).
func RunThreads(prefix []int, steps bool, timeout time.Duration, fns ...func(s *Sched)) *Sched {
	s := &Sched{prefix: prefix, steps: steps, over: make(chan struct{})}
	var wg sync.WaitGroup
	for i, fn := range fns {
		t := &schedThread{id: i, wake: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-t.wake
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abortRun); !ok {
						panic(e)
					}
				}
			}()
			if s.aborted.Load() {
				return
			}
			fn(s)
			t.done = true
			s.next(t)
		}()
	}
	active.Store(s)
	s.next(nil)
	timer := time.NewTimer(timeout)
	defer timer.Stop()
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-timer.C:
		s.Hang = "a call does not finish"
		if s.cur != nil {
			s.Hang = fmt.Sprintf("a call of thread %d does not finish", s.cur.id)
		}
		s.abort()
		select {
		case <-fin:
		case <-time.After(2 * time.Second):
		}
	}
	active.Store(nil)
	return s
}

func (s *Sched) abort() {
	if s.aborted.Swap(true) {
		return
	}
	for _, t := range s.threads {
		select {
		case t.wake <- struct{}{}:
		default:
		}
	}
}

// self is the thread that runs. All goroutines that are not held act for it: they were started by it, or
// serve its request.
func self() (*Sched, *schedThread) {
	s := active.Load()
	if s == nil {
		return nil, nil
	}
	return s, s.cur
}

// next chooses who runs now. cur is the thread that gives up the processor, nil at the start.
func (s *Sched) next(cur *schedThread) {
	if s.aborted.Load() {
		return
	}
	var en []*schedThread
	curIn := false
	if cur != nil && !cur.done && (cur.ok == nil || cur.ok()) {
		en = append(en, cur)
		curIn = true
	}
	left := false
	for _, t := range s.threads {
		if t.done {
			continue
		}
		left = true
		if t != cur && (t.ok == nil || t.ok()) {
			en = append(en, t)
		}
	}
	if len(en) == 0 {
		if left {
			for _, t := range s.threads {
				if !t.done {
					s.Deadlock += fmt.Sprintf("thread %d waits at %s; ", t.id, t.at)
				}
			}
			s.abort()
			if cur != nil && !cur.done {
				panic(abortRun{})
			}
		}
		return
	}
	c := 0
	if len(en) > 1 {
		if k := len(s.Points); k < len(s.prefix) {
			c = s.prefix[k]
		}
		if c >= len(en) { // the run does not repeat; the caller finds out by the points
			c = 0
		}
		s.Points = append(s.Points, Point{len(en), curIn, c, s.Preempts})
		if curIn && c > 0 {
			s.Preempts++
		}
	}
	t := en[c]
	if t == cur {
		return
	}
	s.cur = t
	t.wake <- struct{}{}
	if cur != nil && !cur.done {
		<-cur.wake
		if s.aborted.Load() {
			panic(abortRun{})
		}
	}
}

// block waits until ok holds; even if it does already, another thread may go first.
func (s *Sched) block(t *schedThread, at string, ok func() bool) {
	if s.aborted.Load() {
		panic(abortRun{})
	}
	t.ok, t.at = ok, at
	s.next(t)
	t.ok = nil
}

func caller(n int) string {
	_, file, line, _ := runtime.Caller(n + 1)
	for i := len(file) - 1; i >= 0; i-- {
		if file[i] == '/' {
			file = file[i+1:]
			break
		}
	}
	return fmt.Sprintf("%s:%d", file, line)
}

func schedStep() {
	s := active.Load()
	if s == nil || !s.steps {
		return
	}
	if s.aborted.Load() {
		return
	}
	_, t := self()
	if t == nil {
		return
	}
	s.Steps++
	s.next(t)
}

// Mark is called at the beginning and at the end of a call.
func (s *Sched) Mark() int { s.Clock++; return s.Clock }

// RWMutex is a sync.RWMutex that the scheduler knows of: a writer that waits keeps new readers out, and the
// readers that wait when a writer is done all go first.
type RWMutex struct {
	real sync.RWMutex
	ann  bool // a writer has it or waits for the readers to leave
	r    int
	wait []*bool // readers that wait
}

func (m *RWMutex) Lock() {
	s, t := self()
	if t == nil {
		m.real.Lock()
		return
	}
	at := "Lock " + caller(1)
	s.block(t, at, func() bool { return !m.ann })
	m.ann = true
	if m.r > 0 {
		s.block(t, at, func() bool { return m.r == 0 })
	}
}

func (m *RWMutex) Unlock() {
	s, t := self()
	if t == nil {
		m.real.Unlock()
		return
	}
	if s.aborted.Load() {
		return
	}
	if !m.ann || m.r > 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.ann = false
	for _, g := range m.wait {
		*g = true
		m.r++
	}
	m.wait = nil
}

func (m *RWMutex) RLock() {
	s, t := self()
	if t == nil {
		m.real.RLock()
		return
	}
	at := "RLock " + caller(1)
	s.block(t, at, nil)
	if !m.ann {
		m.r++
		return
	}
	g := new(bool)
	m.wait = append(m.wait, g)
	s.block(t, at, func() bool { return *g })
}

func (m *RWMutex) RUnlock() {
	s, t := self()
	if t == nil {
		m.real.RUnlock()
		return
	}
	if s.aborted.Load() {
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

func (m *RWMutex) TryLock() bool {
	s, t := self()
	if t == nil {
		return m.real.TryLock()
	}
	s.block(t, "", nil)
	if m.ann || m.r > 0 {
		return false
	}
	m.ann = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	s, t := self()
	if t == nil {
		return m.real.TryRLock()
	}
	s.block(t, "", nil)
	if m.ann {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Mutex is a sync.Mutex that the scheduler knows of.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Once is a sync.Once that the scheduler knows of.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup needs no control: goroutines that a thread starts act for it.
type WaitGroup = sync.WaitGroup
