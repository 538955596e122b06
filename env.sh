export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_PY=${VERIF_PY:-/opt/venv/bin/python}
export PATH=/opt/venv/bin:$PATH
export PYTHONHASHSEED=0 MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy CI=1
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$VERIF_REPO:$here:$here/vendor
