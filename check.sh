#!/bin/bash
# bash check.sh <PROPERTY> : decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HF_HUB_OFFLINE=1 HF_EVALUATE_OFFLINE=1 HF_DATASETS_OFFLINE=1
unset OPENAI_API_KEY MISTRAL_API_KEY PYTHONPATH SYMX_MODE
exec /opt/venv/bin/python -c '
import sys
sys.path.insert(0, ".")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx import run
run.main(sys.argv[1:])
' "$@"
