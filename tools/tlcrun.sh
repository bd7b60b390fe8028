#!/bin/bash
# tlcrun.sh PID 'python expr for call on ctx' : run one ctx call with a time limit (development helper)
cd ${VERIF:-/verif} && /opt/venv/bin/python - "$@" <<'P'
import sys,tempfile,time
sys.path.insert(0,'harness'); import vlib
d=tempfile.mkdtemp(); c=vlib.Ctx('T','quick',1,d); t=time.time()
r=eval(sys.argv[1],dict(c=c,Raw=vlib.Raw)); print(time.time()-t, c.models)
if isinstance(r,list): print(len(r)); print(str(r[0])[:1500])
P
