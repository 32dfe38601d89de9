// Package simcpu replaces gopsutil/cpu.
package simcpu

import (
	"time"
	sim "verifsim"
)

func Counts(logical bool) (int, error) { return 4, nil }

func Percent(d time.Duration, percpu bool) ([]float64, error) {
	sim.Sleep(d)
	return []float64{10}, nil
}
