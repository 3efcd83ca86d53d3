package core

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// watchdog ends the process when one execution of a case does not end. It
// judges by work, not by the clock: an execution has hung when the process
// has spent a hundred CPU seconds on it, or when the watchdog itself has been
// scheduled for a minute of one-second ticks in which the process did nothing.
type watchdog struct {
	mu     sync.Mutex
	active bool
	ticks  int
	cpu    time.Duration
	last   time.Duration
	idle   int
	onHang func(string)
}

const (
	hangCPU  = 100 * time.Second
	hangIdle = 60
)

func newWatchdog() *watchdog {
	w := &watchdog{}
	go func() {
		for {
			time.Sleep(time.Second)
			w.tick()
		}
	}()
	return w
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *watchdog) start() {
	w.mu.Lock()
	w.active, w.ticks, w.idle = true, 0, 0
	w.cpu = cpuTime()
	w.last = w.cpu
	w.mu.Unlock()
}

func (w *watchdog) stop() {
	w.mu.Lock()
	w.active = false
	w.mu.Unlock()
}

func (w *watchdog) tick() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.active {
		return
	}
	now := cpuTime()
	w.ticks++
	if now-w.last < 20*time.Millisecond && !Waiting.Load() {
		w.idle++
	} else {
		w.idle = 0
	}
	w.last = now
	why := ""
	switch {
	case now-w.cpu > hangCPU:
		why = fmt.Sprintf("no answer after %v of CPU time", now-w.cpu)
	case w.idle >= hangIdle:
		why = fmt.Sprintf("deadlock: nothing happens for %d s", w.idle)
	}
	if why == "" || w.onHang == nil {
		return
	}
	buf := make([]byte, 16000)
	buf = buf[:runtime.Stack(buf, true)]
	w.onHang(why + "\n" + string(buf))
}

// Waiting is set while a case waits for a command it started, which has its
// own limits.
var Waiting atomic.Bool
