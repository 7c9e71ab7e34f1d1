package main

import (
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const memGB = 22

// memory shares out the machine's memory between jobs, and stops the explorations when it runs short.
var memory = &memPool{free: memGB}

type memPool struct {
	mu    sync.Mutex
	cond  *sync.Cond
	free  int
	short int32
}

func (m *memPool) take(n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.cond == nil {
		m.cond = sync.NewCond(&m.mu)
	}
	if n > memGB {
		n = memGB
	}
	for m.free < n {
		m.cond.Wait()
	}
	m.free -= n
}

func (m *memPool) give(n int) {
	m.mu.Lock()
	if n > memGB {
		n = memGB
	}
	m.free += n
	m.cond.Broadcast()
	m.mu.Unlock()
}

func rssGB() float64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseFloat(f[1], 64)
	return n * float64(os.Getpagesize()) / (1 << 30)
}

// watch raises the flag while the process is too large; explorations then end as incomplete.
func (m *memPool) watch() {
	debug.SetMemoryLimit(memGB << 30)
	for {
		time.Sleep(300 * time.Millisecond)
		v := int32(0)
		if rssGB() > memGB+4 {
			v = 1
		}
		atomic.StoreInt32(&m.short, v)
	}
}

func (m *memPool) isShort() bool { return atomic.LoadInt32(&m.short) != 0 }
