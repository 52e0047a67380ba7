#!/bin/bash
# dev.sh FILE.cpp [args]: build a scratch harness against all sources (o1) and run it in 8 shards, stdout passed through
set -e
f=$1; shift; n=$(basename $f .cpp)
cd /verif
python3 - <<P
import sys; sys.path.insert(0,'/verif/vk')
import check,os,shutil
os.makedirs('/verif/.build/dev',exist_ok=True)
open('/verif/harness/ZDEV.cpp','w').write('// vk: flavor=o1\n')
open('/verif/harness/ZDEV.cpp','a').write('#include "vk.h"\n#include "PROPOSAL/particle/Particle.h"\nvoid vk_main(){}\n')
r=check.build(['ZDEV']); os.unlink('/verif/harness/ZDEV.cpp'); sys.exit(0 if r else 1)
P
lib=$(ls -S .build/lib_o1_*.a | head -1)
g++ -std=c++14 -w -O1 -DNDEBUG -I standin -I /repo/src/PROPOSAL -I .build/inc -I vk -I harness $f $lib $lib -lspdlog -lfmt -lpthread -o /tmp/w/$n.bin 2>&1 | grep -E "error|undefined" | cut -c1-250 | head -${E:-12}; test ${PIPESTATUS[0]} -eq 0
for i in 0 1 2 3 4 5 6 7; do timeout ${T:-600} /tmp/w/$n.bin --shard $i --nshards 8 --out /tmp/w/$n.o$i "$@" >/tmp/w/$n.out$i 2>&1 & done; wait
cat /tmp/w/$n.out?; cat /tmp/w/$n.o?.fails 2>/dev/null | sort | head -${L:-60} | cut -c1-${W:-300}
