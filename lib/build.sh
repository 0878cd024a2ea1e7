# Sourced. Brings /verif/build up to date with /repo's working tree:
#   build/py3   Python 3 translation of /repo (with its C/Cython extensions), as /opt/vp/build.sh makes it
#   build/hyp   Hypothesis, from the offline wheelhouse
#   build/cpp   the C++ part (only when NEED_CPP=1)
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
BUILD=${VERIF_BUILD:-$VERIF/build}
export LC_ALL=C.UTF-8 TZ=UTC PIP_NO_INDEX=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
SUPPORT=/opt/vp/py3
TREE=$BUILD/py3
mkdir -p "$BUILD" "$VERIF/evidence"

build_hyp() {
  [ -e "$BUILD/hyp/.done" ] && return 0
  rm -rf "$BUILD/hyp"; mkdir -p "$BUILD/hyp"
  local w ok=1
  for w in /opt/veriftools/wheels/hypothesis-[0-9]*cp312*.whl /opt/veriftools/wheels/sortedcontainers-*.whl; do
    [ -e "$w" ] && PYTHONPATH= "$PY" -m zipfile -e "$w" "$BUILD/hyp" || ok=0
  done
  if [ $ok = 0 ]; then
    for w in hypothesis sortedcontainers; do ln -sfn /opt/veriftools/pyvenv/lib/python3.12/site-packages/$w "$BUILD/hyp/$w"; done
  fi
  touch "$BUILD/hyp/.done"
}

build_py3() {
  if [ ! -e "$TREE/.translate.json" ]; then
    rm -rf "$TREE"
    if [ -e /opt/eustace-py3/.translate.json ]; then cp -a /opt/eustace-py3 "$TREE"; fi
    mkdir -p "$TREE"
  fi
  PYTHONPATH= "$PY" "$SUPPORT/translate.py" "$REPO" "$TREE" || return 1
  if ! (cd "$TREE/src" && PYTHONPATH=$SUPPORT/compat:$TREE/src "$PY" setup.py build_ext --inplace) > "$TREE/build_ext.log" 2>&1; then
    tail -n 40 "$TREE/build_ext.log"
    find "$TREE/src" -name '*.so' -delete
    rm -rf "$TREE/src/build"
    return 1
  fi
}

build_cpp() {
  mkdir -p "$BUILD/cpp"
  cmake -S "$VERIF/lib/cpp" -B "$BUILD/cpp" -DREPO_CPP="$REPO/src/cpp" -DCMAKE_BUILD_TYPE=Debug -Wno-dev > "$BUILD/cpp/build.log" 2>&1 &&
    make -C "$BUILD/cpp" -j8 >> "$BUILD/cpp/build.log" 2>&1 || { grep -iE 'error|\*\*\*' "$BUILD/cpp/build.log" | head -n 40; return 1; }
}

build_all() {
  exec 9> "$BUILD/.lock"
  flock 9
  build_hyp && build_py3 || return 1
  if [ "${NEED_CPP:-0}" = 1 ]; then build_cpp || return 1; fi
  flock -u 9
}
