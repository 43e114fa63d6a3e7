#!/bin/bash
# conformance of the simulated MPI library with the real one: decks run under both, outputs compared (not part of a check)
cd "$(dirname "$0")/.."; export XMPI_EXE=${XMPI_EXE:-/repo/_build/teufel}
exec python3 - "$@" <<'P'
import sys,os; sys.path.insert(0,'mc'); import build as B, subprocess,tempfile
from checks import HYB
import inspect
e=B.build(name="xmpi",harness=["../mc/mc.cpp","xmpi.cpp","hyb.cpp"],**{k:v for k,v in HYB.items()})
d=tempfile.mkdtemp(prefix="xmpi"); r=subprocess.run([e,"--tier","quick","--seed","1","--shard","0/1","--work",d,"--out",d+"/o.json"]); print(open(d+"/o.json").read()[:1500] if os.path.exists(d+"/o.json") else r); subprocess.run(["rm","-rf",d])
P
