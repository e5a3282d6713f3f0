# sourced by demo.sh:  demo_build PORT SOURCE -> $T/demo ; demo_run SECONDS RANKS [args]
here=$(cd "$(dirname "$0")" && pwd)
B=$PWD/_build
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm=isolated
export OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none TMPDIR=$T
M=/usr/lib/x86_64-linux-gnu/openmpi
INC="-I$PWD/ma -I$PWD/global/src -I$PWD/gaf2c -I$PWD/comex/src-common -I$PWD/comex/src-armci -I$PWD/tcgmsg -I$PWD/pario/dra -I$PWD/pario/eaf -I$PWD/pario/sf -I$PWD/pario/elio -I$M/include"
demo_build() {
  local p=$1; shift
  case $p in
    ts|pr) D=$B/$p; LIBS=${DEMO_LIBS:-"$D/.libs/libga.a $D/comex/.libs/libarmci.a $D/comex/.libs/libcomex.a"}; C=$D/comex ;;
    *) D=$B/ts; LIBS=${DEMO_LIBS:-"$B/$p/.libs/libarmci.a $B/$p/.libs/libcomex.a"}; C=$B/$p ;;
  esac
  gcc -g -O1 -w -DHAVE_CONFIG_H -I$D -I$D/ma -I$D/global/src -I$D/gaf2c $INC -o $T/demo "$@" $LIBS $LIBS \
    -L$M/lib -lmpi -lgfortran -lquadmath -lpthread -lrt -lm || exit 2
}
demo_run() {
  local s=$1 n=$2; shift 2
  (cd $T && timeout -k 5 $s mpirun -np $n --oversubscribe $T/demo "$@")
}
