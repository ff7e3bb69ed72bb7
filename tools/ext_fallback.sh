#!/bin/bash
# Sourced by build.sh and test.sh: common environment, and build_ext, which rebuilds the four Cython extensions in
# place when the contents of their sources changed. setup.py itself hides Cython and compiler errors and goes on
# without the extension (pygsti then falls back to slow Python code), so they are made visible here.
PY=/opt/venv/bin/python
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PIP_NO_INDEX=1 PIP_DISABLE_PIP_VERSION_CHECK=1 SETUPTOOLS_SCM_PRETEND_VERSION=0.9.9.2
export PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=${LANG:-C.UTF-8}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
cd /repo || exit 1

build_ext() {
    local spec dir name gen so stamp need=0
    mkdir -p build/vpstamps
    for spec in pygsti/tools:fastcalc:c pygsti/objects/opcalc:fastopcalc:cpp \
                pygsti/objects/replib:fastreplib:cpp pygsti/io/circuitparser:fastcircuitparser:cpp; do
        IFS=: read -r dir name gen <<<"$spec"
        stamp=build/vpstamps/$name
        sum=$( { sha256sum setup.py; find pygsti \( -name '*.pyx' -o -name '*.pxd' -o -name '*.h' -o -name 'fastreps.cpp' \) \
                     \( -path "$dir/*" -o -name '*.pxd' \) | sort | xargs sha256sum; } | sha256sum)
        so=$(ls "$dir/$name".cpython-*.so 2>/dev/null)
        if [ -z "$so" ] || [ "$sum" != "$(cat "$stamp" 2>/dev/null)" ]; then
            need=1
            rm -f "$stamp" "$dir/$name".cpython-*.so "$dir/$name.$gen"
            rm -f build/lib*/"$dir/$name".cpython-*.so
        fi
        sums[${#sums[@]}]="$dir $name $sum"
    done
    [ $need = 0 ] && return 0
    $PY setup.py build_ext --inplace -j 4 >build/vp_build_ext.log 2>&1
    local rc=$? line bad=0
    for line in "${sums[@]}"; do
        read -r dir name sum <<<"$line"
        if ls "$dir/$name".cpython-*.so >/dev/null 2>&1; then
            echo "$sum" >build/vpstamps/$name
        else
            echo "extension $dir/$name was not built" >&2; bad=1
        fi
    done
    if [ $rc != 0 ] || [ $bad != 0 ]; then
        grep -vE 'warning' build/vp_build_ext.log | tail -60 >&2
        return 1
    fi
}
