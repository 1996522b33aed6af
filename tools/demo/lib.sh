# Sourced by demo.sh: builds a program against /repo's working tree (cwd) and runs it under mpirun.
# build PROG.cpp NAME NDIM "defs" "extra library sources" ; run NAME NP args...
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/hila-demo.XXXXXX)
trap 'cd /; rm -rf "$W"' EXIT
export OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_pml=ob1 \
    OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 \
    OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=${OMP_NUM_THREADS:-1}
HOPTS=${HOPTS:-}
CXXEXTRA=${CXXEXTRA:-}
build() {
    local src=$1 name=$2 ndim=$3 defs=$4 extra=$5 s
    local L=$R/libraries
    local lay=setup_layout_generic
    case " $defs " in *" -DAVX "*) lay=setup_layout_vector; HOPTS="$HOPTS -target:AVX"; CXXEXTRA="$CXXEXTRA -mavx2 -mfma -fabi-version=0 -fomit-frame-pointer" ;;
    *" -DOPENMP "*) HOPTS="$HOPTS -target:openmp"; CXXEXTRA="$CXXEXTRA -fopenmp" ;; esac
    case " $defs " in *NODE_LAYOUT*) ;; *) defs="$defs -DNODE_LAYOUT_BLOCK=4" ;; esac
    local all="-DNDIM=$ndim $defs -DGIT_SHA_VALUE=local -DGIT_SHA_HILA_VALUE=local"
    local inc="-I$L -I$L/plumbing -I$L/datatypes -I$L/tools -I$D"
    mkdir -p "$W/$name.d"
    local list=""
    for s in initialize input cmdline random lattice map_node_layout memalloc timing test_gathers com_mpi memory_pool fft $lay; do
        list="$list $L/plumbing/$s.cpp"
    done
    list="$list $L/datatypes/extended.cpp $D/$src"
    for s in $extra; do list="$list $L/$s"; done
    for s in $list; do
        echo "$s"
    done | xargs -P 8 -I{} bash -c '
        s={}; b="'"$W/$name.d"'"/$(basename $s .cpp)
        o="-O1"; case $s in *extended.cpp) o="" ;; esac
        "'"$R"'/hilapp/bin/hilapp" '"$HOPTS"' -std=c++17 '"$all $inc"' $s -o $b.cpt > $b.log 2>&1 &&
        mpic++ -x c++ -std=c++17 -fno-rtti -w $o '"$CXXEXTRA $all $inc"' -c $b.cpt -o $b.o >> $b.log 2>&1 || { cat $b.log; exit 255; }' || { echo "demo: build failed"; exit 3; }
    mpic++ $CXXEXTRA -o "$W/$name" "$W/$name.d"/*.o -lfftw3 -lfftw3f -lm || { echo "demo: link failed"; exit 3; }
}
run() {
    local name=$1 np=$2; shift 2
    (cd "$W" && timeout -k 5 ${TMO:-60} mpirun --oversubscribe --bind-to none -n "$np" "./$name" "$@" < /dev/null)
}
