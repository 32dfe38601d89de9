#!/bin/bash
# app log (errors) and tail of the timeline: al.sh PROP SCEN SEED [lines]
cd /verif
VERIF_APPLOG=1 ./.build/simtest run $1 -s $2 -raw $3 -v >/tmp/al.out 2>/tmp/al.err
grep -a "ERRO\|WARN\|PANIC\|panic" /tmp/al.err | cut -c1-400 | tail -${4:-15}
grep -v "etcd\|GetPeers" /tmp/al.out | cut -c1-220 | tail -${4:-15}
