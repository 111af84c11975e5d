package main

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/rbf"
)

// The overlay adds VerifHook, called around each commit that writes, and VerifBegin,
// called when a read transaction begins, to the two storage libraries.

// gate lets one goroutine pass a point at a time
type gate struct {
	mu      sync.Mutex
	on      bool
	arrived chan struct{} // someone waits
	permit  chan struct{}
	passed  int
}

func newGate() *gate {
	return &gate{arrived: make(chan struct{}, 1024), permit: make(chan struct{}, 1024)}
}

func (g *gate) isOn() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.on
}

func (g *gate) wait() {
	if !g.isOn() {
		return
	}
	g.arrived <- struct{}{}
	<-g.permit
}

func (g *gate) enable() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.on = true
	drain(g.arrived)
	drain(g.permit)
}

// open lets everyone pass
func (g *gate) open() {
	g.mu.Lock()
	defer g.mu.Unlock()
	if !g.on {
		return
	}
	g.on = false
	for i := 0; i < 512; i++ {
		g.permit <- struct{}{}
	}
}

// bypass lets new arrivals pass, those that wait go on waiting
func (g *gate) bypass() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.on = false
}

// release lets everyone who waits pass, and tells if someone did
func (g *gate) release() (any bool) {
	for i := 0; i < 512; i++ {
		select {
		case g.permit <- struct{}{}:
		default:
		}
	}
	time.Sleep(time.Millisecond)
	return len(g.permit) < 512
}

func drain(c chan struct{}) {
	for {
		select {
		case <-c:
		default:
			return
		}
	}
}

// settle waits until the gated operation is at the gate again or over
func (g *gate) settle(done chan struct{}) {
	select {
	case <-g.arrived:
	case <-done:
	case <-time.After(400 * time.Millisecond):
		// waits for something else, such as a lock
	}
}

var (
	commits = newGate()
	reads   = newGate()
	// called at each commit, for counting
	onCommit func(after bool)
	// how many of the next numbers of sequences take their time
	slowNumbers atomic.Int64
)

func installGates() {
	h := func(after bool) {
		if onCommit != nil {
			onCommit(after)
		}
		if !after {
			commits.wait()
		}
	}
	badger.VerifNext = func() {
		if slowNumbers.Add(-1) >= 0 {
			time.Sleep(200 * time.Millisecond)
		}
	}
	badger.VerifHook = h
	rbf.VerifHook = h
	badger.VerifBegin = func(update bool) {
		if !update {
			reads.wait()
		}
	}
	rbf.VerifBegin = badger.VerifBegin
}
