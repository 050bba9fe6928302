export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
