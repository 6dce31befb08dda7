#!/bin/bash
# tools/one.sh PROP CASEFILE: runs one case verbosely
cd "$(dirname "$0")/.."
python3 - "$1" "$2" <<'P'
import sys,subprocess,os
sys.path.insert(0,'.')
from vlib import build as B
from vlib.checks import FSX,APX
from vlib.engine import SAN_ENV
b=B.build("apx2","asan",APX,second=True) if sys.argv[1]=="C30" else B.build("apx","asan",APX) if sys.argv[1] in ("C12","C13","C15","C16","C19","C20","C21","C22","C25","C26","C27","C28","C29","C31") else B.build("fsx","asan",FSX)
e=dict(os.environ); e.update(SAN_ENV)
os.makedirs('/dev/shm/one/t',exist_ok=True)
sys.exit(subprocess.run([b,"run",sys.argv[1],sys.argv[2],"/dev/shm/one/t/t","-v"],env=e).returncode)
P
