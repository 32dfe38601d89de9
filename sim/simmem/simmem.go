// Package simmem replaces gopsutil/mem.
package simmem

import omem "github.com/shirou/gopsutil/v3/mem"

func VirtualMemory() (*omem.VirtualMemoryStat, error) {
	return &omem.VirtualMemoryStat{Total: 8 << 30, Available: 4 << 30, Used: 4 << 30, Free: 4 << 30, UsedPercent: 50}, nil
}
