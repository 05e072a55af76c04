#!/bin/sh
# ./run.sh P01 [quick|thorough]   |   ./run.sh replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 DATAPROFILER_SEED=0 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python run.py "$@"
