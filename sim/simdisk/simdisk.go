// Package simdisk replaces gopsutil/disk: mount points belong to the simulated host.
package simdisk

import (
	odisk "github.com/shirou/gopsutil/v3/disk"
	sim "verifsim"
)

func Partitions(all bool) ([]odisk.PartitionStat, error) {
	n := sim.CurNode()
	if n == nil {
		return nil, nil
	}
	var r []odisk.PartitionStat
	mps, _ := n.Data["mounts"].([]string)
	for _, m := range mps {
		r = append(r, odisk.PartitionStat{Device: "/dev/sim", Mountpoint: m, Fstype: "ext4"})
	}
	return r, nil
}

func IOCounters(names ...string) (map[string]odisk.IOCountersStat, error) {
	return map[string]odisk.IOCountersStat{"sim": {Name: "sim", ReadCount: 1, WriteCount: 1}}, nil
}
