#!/bin/bash
# compact timeline of one run: tl.sh PROP SCEN SEED [extra grep -E pattern]
cd /verif && ./.build/simtest run "$1" -s "$2" -raw "$3" -v 2>&1 | grep -E "ret |FAULT|crashed|start meta|heal|power|PANIC|VIOL|VERIFDBG${4:+|$4}" | grep -vE -- "-> no .*(not writable|Aborted|503)|ret get|ret list|ret extra" | cut -c1-${W:-220}
