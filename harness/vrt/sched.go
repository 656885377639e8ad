package vrt

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// The scheduler runs a handful of threads one at a time. A thread passes the turn on at scheduling points only: when
// it takes a lock, in front of other synchronizing operations, and when it blocks or ends. Which thread comes next
// is a decision of the explorer. All this is invisible to the race detector: passing the turn orders nothing.

const (
	maxScheds  = 256
	maxThreads = 12
	maxTrail   = 4096
)

const (
	unused = iota
	ready
	blocked
	done
)

// Thread is a goroutine under the control of a scheduler.
type Thread struct {
	s     *Sched
	id    int
	state int
	on    unsafe.Pointer // the lock it waits for
	ch    chan struct{}
	panic string
}

// pool has all the threads there are: a goroutine is a thread if its label points in here.
var pool [maxScheds * maxThreads]Thread

// Sched runs the threads of one execution.
type Sched struct {
	index   int
	n       int // threads
	live    int
	alone   int // goroutines that are not under control
	free    bool
	stuck   bool
	limit   int
	used    int
	beat    int
	clock   int
	trail   [maxTrail]int32
	width   [maxTrail]int32
	preset  int
	pos     int
	over    bool
	finish  chan struct{}
	wg      sync.WaitGroup
	stalled time.Time
	points  int64
}

var (
	schedMu   sync.Mutex
	schedFree []*Sched
	schedN    int
)

// Result tells how an execution went.
type Result struct {
	Trail, Width []int
	Deadlock     bool   // all threads wait for locks
	Panic        string // of a thread
	Wild         bool   // the threads had to be let go, so the schedule was not controlled
	Points       int    // scheduling points passed
}

func newSched() *Sched {
	schedMu.Lock()
	defer schedMu.Unlock()
	if n := len(schedFree); n > 0 {
		s := schedFree[n-1]
		schedFree = schedFree[:n-1]
		return s
	}
	if schedN >= maxScheds {
		panic("vrt: too many schedulers (deadlocked executions keep theirs)")
	}
	s := &Sched{index: schedN, finish: make(chan struct{}, 1)}
	schedN++
	for i := 0; i < maxThreads; i++ {
		t := s.thread(i)
		t.s, t.id, t.ch = s, i, make(chan struct{}, 1)
	}
	return s
}

//go:norace
func (s *Sched) thread(i int) *Thread { return &pool[s.index*maxThreads+i] }

// Run executes bodies as threads, deciding according to the trail and then always for carrying on, with no more than
// limit preemptions.
func Run(trail []int, limit int, bodies ...func()) Result {
	return run(trail, limit, 0, bodies...)
}

// RunAmong is Run if there are goroutines that are not under control and may hold locks for a while.
func RunAmong(trail []int, limit int, bodies ...func()) Result {
	return run(trail, limit, 1, bodies...)
}

func run(trail []int, limit, outsiders int, bodies ...func()) Result {
	s := newSched()
	s.reset(trail, limit, len(bodies), outsiders)
	for i, b := range bodies {
		t := s.thread(i)
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			t.begin()
			defer t.end()
			b()
		}()
	}
	s.start()
	res := Result{}
	beat, since := -1, time.Now()
loop:
	for {
		timer := time.NewTimer(500 * time.Millisecond)
		select {
		case <-s.finish:
			timer.Stop()
			break loop
		case <-timer.C:
			switch b := s.progress(); {
			case s.isStuck():
				break loop
			case s.isFree():
				if time.Since(since) > 15*time.Second {
					s.setStuck()
					break loop
				}
			case b != beat:
				beat, since = b, time.Now()
			case time.Since(since) > time.Second:
				// Some thread waits for something that the scheduler does not know.
				res.Wild = true
				since = time.Now()
				s.letGo()
			}
		}
	}
	res.Deadlock = s.isStuck()
	if !res.Deadlock {
		s.wg.Wait() // what the threads did comes before what follows
	}
	s.result(&res)
	if !res.Deadlock {
		schedMu.Lock()
		schedFree = append(schedFree, s)
		schedMu.Unlock()
	}
	return res
}

//go:norace
func (s *Sched) reset(trail []int, limit, n, outsiders int) {
	s.n, s.live, s.alone, s.free, s.stuck, s.limit, s.used, s.beat = n, n, outsiders, false, false, limit, 0, 0
	s.pos, s.preset, s.over, s.points, s.clock = 0, 0, false, 0, 0
	s.stalled = time.Time{}
	for i := 0; i < len(trail) && i < maxTrail; i++ {
		s.trail[i] = int32(trail[i])
		s.preset++
	}
	for i := 0; i < maxThreads; i++ {
		t := s.thread(i)
		t.state, t.on, t.panic = unused, nil, ""
		if i < n {
			t.state = ready
		}
		raceOff()
		select {
		case <-t.ch:
		default:
		}
		raceOn()
	}
	raceOff()
	select {
	case <-s.finish:
	default:
	}
	raceOn()
}

//go:norace
func (s *Sched) start() {
	if t := s.choose(nil); t != nil {
		t.wake()
	}
}

//go:norace
func (s *Sched) progress() int { return s.beat }

//go:norace
func (s *Sched) isStuck() bool { return s.stuck }

//go:norace
func (s *Sched) isFree() bool { return s.free }

//go:norace
func (s *Sched) setStuck() { s.stuck = true }

//go:norace
func (s *Sched) letGo() {
	s.free = true
	for i := 0; i < maxThreads; i++ {
		s.thread(i).wake()
	}
}

//go:norace
func (s *Sched) result(r *Result) {
	r.Points = int(s.points)
	r.Trail = make([]int, s.pos)
	r.Width = make([]int, s.pos)
	for i := 0; i < s.pos; i++ {
		r.Trail[i], r.Width[i] = int(s.trail[i]), int(s.width[i])
	}
	for i := 0; i < maxThreads; i++ {
		if p := s.thread(i).panic; p != "" && r.Panic == "" {
			r.Panic = p
		}
	}
	if s.over {
		r.Wild = true
	}
}

//go:norace
func (t *Thread) wake() {
	raceOff()
	select {
	case t.ch <- struct{}{}:
	default:
	}
	raceOn()
}

//go:norace
func (t *Thread) wait() {
	raceOff()
	<-t.ch
	raceOn()
}

// begin makes the goroutine the thread t and waits for its turn.
//
//go:norace
func (t *Thread) begin() {
	setLabel(unsafe.Pointer(t))
	t.wait()
}

//go:norace
func (t *Thread) end() {
	setLabel(nil)
	if p := recover(); p != nil {
		t.panic = describe(p)
	}
	s := t.s
	t.state = done
	s.live--
	if s.free {
		if s.live <= 0 {
			s.ended()
		}
		return
	}
	if s.live == 0 {
		s.ended()
		return
	}
	s.next(t)
}

//go:norace
func (s *Sched) ended() {
	raceOff()
	select {
	case s.finish <- struct{}{}:
	default:
	}
	raceOn()
}

func describe(p any) string {
	ls := strings.Split(string(debug.Stack()), "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return fmt.Sprintf("panic: %v\n%s", p, strings.Join(ls, "\n"))
}

//go:norace
func (s *Sched) pick(n int) int {
	if n <= 1 {
		return 0
	}
	if s.pos >= maxTrail {
		s.over = true
		return 0
	}
	x := int32(0)
	if s.pos < s.preset {
		x = s.trail[s.pos]
	}
	if int(x) >= n {
		x = int32(n - 1)
	}
	s.trail[s.pos], s.width[s.pos] = x, int32(n)
	s.pos++
	return int(x)
}

// choose picks one of the threads that can go on, other than t, in a free choice.
//
//go:norace
func (s *Sched) choose(t *Thread) *Thread {
	n := 0
	for i := 0; i < s.n; i++ {
		if u := s.thread(i); u != t && u.state == ready {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	return s.nth(t, s.pick(n))
}

//go:norace
func (s *Sched) nth(t *Thread, x int) *Thread {
	from := 0
	if t != nil {
		from = t.id + 1
	}
	for k := 0; k < s.n; k++ {
		if u := s.thread((from + k) % s.n); u != t && u.state == ready {
			if x == 0 {
				return u
			}
			x--
		}
	}
	return nil
}

// next passes the turn on from t, which cannot go on. It returns true if t keeps the turn and is to try again.
//
//go:norace
func (s *Sched) next(t *Thread) bool {
	s.beat++
	u := s.choose(t)
	for u == nil && s.alone > 0 && !s.free {
		// Goroutines that are not under control may hold what the threads wait for.
		if s.stalled.IsZero() {
			s.stalled = time.Now()
		} else if time.Since(s.stalled) > 3*time.Second {
			break
		}
		raceOff()
		time.Sleep(100 * time.Microsecond)
		raceOn()
		s.beat++
		for i := 0; i < s.n; i++ {
			if v := s.thread(i); v.state == blocked {
				v.state = ready
			}
		}
		u = s.nth(t, 0)
		if u == nil && t.state == ready {
			return true
		}
	}
	if s.free {
		return true
	}
	if u == nil {
		s.stuck = true
		s.ended()
		return false
	}
	u.wake()
	return false
}

// yield is a scheduling point of the thread that has the turn.
//
//go:norace
func (t *Thread) yield() {
	s := t.s
	s.points++
	if s.free {
		return
	}
	s.beat++
	if s.used >= s.limit {
		return
	}
	n := 0
	for i := 0; i < s.n; i++ {
		if u := s.thread(i); u != t && u.state == ready {
			n++
		}
	}
	if n == 0 {
		return
	}
	x := s.pick(n + 1)
	if x == 0 {
		return
	}
	s.used++
	s.nth(t, x-1).wake()
	t.wait()
}

// block waits until the lock p may be free.
//
//go:norace
func (t *Thread) block(p unsafe.Pointer) {
	s := t.s
	t.state, t.on = blocked, p
	if !s.next(t) {
		t.wait()
	}
	t.state = ready
}

// released wakes those who wait for the lock p.
//
//go:norace
func released(p unsafe.Pointer) {
	t := self()
	if t == nil {
		return
	}
	s := t.s
	s.stalled = time.Time{}
	for i := 0; i < s.n; i++ {
		if u := s.thread(i); u.state == blocked && u.on == p {
			u.state, u.on = ready, nil
		}
	}
}

//go:norace
func self() *Thread {
	q := getLabel()
	if p := uintptr(q); p < uintptr(unsafe.Pointer(&pool[0])) || p > uintptr(unsafe.Pointer(&pool[len(pool)-1])) {
		return nil
	}
	return (*Thread)(q)
}

// P is a scheduling point.
func P() {
	if t := self(); t != nil {
		t.yield()
	}
}

// Managed says whether the calling goroutine is a thread.
func Managed() bool { return self() != nil }

// ID is the number of the calling thread, or -1.
//
//go:norace
func ID() int {
	if t := self(); t != nil {
		return t.id
	}
	return -1
}

// Detach prepares for starting a goroutine that is not to be a thread.
//
//go:norace
func Detach() *Thread {
	t := self()
	if t != nil {
		t.s.alone++
		setLabel(nil)
	}
	return t
}

// Attach undoes what Detach did to the calling goroutine.
func Attach(t *Thread) {
	if t != nil {
		setLabel(unsafe.Pointer(t))
	}
}

// Spawn makes a thread for a goroutine that is about to be started, if the caller is a thread.
//
//go:norace
func Spawn() *Thread {
	t := self()
	if t == nil {
		return nil
	}
	s := t.s
	if s.free || s.n >= maxThreads {
		s.alone++
		s.over = true
		return nil
	}
	u := s.thread(s.n)
	s.n++
	s.live++
	u.state = ready
	s.wgAdd()
	return u
}

//go:norace
func (s *Sched) wgAdd() { s.wg.Add(1) }

// Begin starts the thread made by Spawn.
func Begin(t *Thread) {
	if t == nil {
		setLabel(nil)
		return
	}
	t.begin()
}

// End ends it.
func End(t *Thread) {
	if t == nil {
		return
	}
	if p := recover(); p != nil {
		t.fail(describe(p))
	}
	s := t.s
	t.end()
	s.wg.Done()
}

//go:norace
func (t *Thread) fail(msg string) { t.panic = msg }

// Tick is the time in the execution of the calling thread: a counter that orders nothing for the race detector.
//
//go:norace
func Tick() int {
	t := self()
	if t == nil {
		return 0
	}
	t.s.clock++
	return t.s.clock
}

// Log keeps records of several threads, without ordering them for the race detector.
type Log struct {
	mu   sync.Mutex
	in   int
	recs [128]Rec
	n    int
	over bool
}

// Rec is one record.
type Rec struct {
	Key, What string
}

// Enter says that a call begins.
//
//go:norace
func (l *Log) Enter() {
	raceOff()
	l.mu.Lock()
	if l.in++; l.in > 1 {
		l.over = true
	}
	l.mu.Unlock()
	raceOn()
}

// Leave says that it ends.
//
//go:norace
func (l *Log) Leave() {
	raceOff()
	l.mu.Lock()
	l.in--
	l.mu.Unlock()
	raceOn()
}

// Put adds a record.
//
//go:norace
func (l *Log) Put(key, what string) {
	raceOff()
	l.mu.Lock()
	if l.n < len(l.recs) {
		l.recs[l.n].Key, l.recs[l.n].What = key, what
		l.n++
	}
	l.mu.Unlock()
	raceOn()
}

// Get returns what was recorded and whether calls ever overlapped.
//
//go:norace
func (l *Log) Get() ([]Rec, bool) {
	raceOff()
	l.mu.Lock()
	r := make([]Rec, l.n)
	for i := range r {
		r[i].Key, r[i].What = l.recs[i].Key, l.recs[i].What
	}
	over := l.over
	l.mu.Unlock()
	raceOn()
	return r, over
}

// Mutex is sync.Mutex with scheduling points.
type Mutex struct{ m sync.Mutex }

//go:norace
func free(t *Thread) bool { return t.s.free }

// Lock locks m.
func (m *Mutex) Lock() {
	t := self()
	if t == nil {
		m.m.Lock()
		return
	}
	t.yield()
	for !m.m.TryLock() {
		if free(t) {
			m.m.Lock()
			return
		}
		t.block(unsafe.Pointer(m))
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	P()
	return m.m.TryLock()
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.m.Unlock()
	released(unsafe.Pointer(m))
}

// RWMutex is sync.RWMutex with scheduling points. Like there, a waiting writer keeps new readers out.
type RWMutex struct {
	m  sync.RWMutex
	ww int // waiting writers among the threads
}

//go:norace
func (m *RWMutex) waiting(d int) int {
	m.ww += d
	return m.ww
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	t := self()
	if t == nil {
		m.m.Lock()
		return
	}
	t.yield()
	if m.m.TryLock() {
		return
	}
	m.waiting(1)
	for {
		if free(t) {
			m.m.Lock()
			break
		}
		t.block(unsafe.Pointer(m))
		if m.m.TryLock() {
			break
		}
	}
	m.waiting(-1)
	released(unsafe.Pointer(m)) // readers that this writer kept out may try again
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	P()
	return m.m.TryLock()
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	released(unsafe.Pointer(m))
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	t := self()
	if t == nil {
		m.m.RLock()
		return
	}
	t.yield()
	for m.waiting(0) > 0 || !m.m.TryRLock() {
		if free(t) {
			m.m.RLock()
			return
		}
		t.block(unsafe.Pointer(m))
	}
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	P()
	return m.m.TryRLock()
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	released(unsafe.Pointer(m))
}

// RLocker is like that of sync.RWMutex.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once with scheduling points.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
