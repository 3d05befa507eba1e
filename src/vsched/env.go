package vsched

import (
	"runtime"
	"syscall"
)

// Environment answers the harness may decide.
var (
	GetrusageHook    func(who int, r *syscall.Rusage) error
	ReadMemStatsHook func(*runtime.MemStats)
	NumGoroutineHook func() int
)

func Getrusage(who int, r *syscall.Rusage) error {
	if GetrusageHook != nil {
		return GetrusageHook(who, r)
	}
	return syscall.Getrusage(who, r)
}

func ReadMemStats(m *runtime.MemStats) {
	if ReadMemStatsHook != nil {
		ReadMemStatsHook(m)
		return
	}
	runtime.ReadMemStats(m)
}

func NumGoroutine() int {
	if NumGoroutineHook != nil {
		return NumGoroutineHook()
	}
	return runtime.NumGoroutine()
}
