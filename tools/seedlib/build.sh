# sourced by demo.sh: build SET... compiles demo.cc and these parts of the repository in the working
# directory into $W/demo. Sets: common, data, shm, io, mpi, dist
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
W=$(mktemp -d)
trap 'rm -rf -- "$W"' EXIT
build() {
  local S="$here/demo.cc" s CXX=g++
  local F="-std=c++20 -O1 -g0 -msse4.1 -mcx16 -w -I$here -I$PWD -isystem $PWD/external/growt -DKAMINPAR_ENABLE_TIMERS -DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING -DKAMINPAR_COMPRESSION_INTERVAL_ENCODING -DKAMINPAR_SPARSEHASH_FOUND -DKAMINPAR_USES_GROWT $EXTRA"
  for s in "$@"; do
    case $s in
    common)
      sed 's/@[A-Za-z_0-9]*@/x/g' kaminpar-common/environment.cc.in > "$W/environment.cc"
      S="$S $W/environment.cc $(find "$PWD/kaminpar-common" -name '*.cc')" ;;
    data) S="$S $(find "$PWD/kaminpar-shm/datastructures" -name '*.cc') $(find "$PWD/kaminpar-shm/graphutils" -name '*compressed*.cc')" ;;
    shm) S="$S $(find "$PWD/kaminpar-shm" -name '*.cc')" ;;
    io) S="$S $(find "$PWD/apps/io" -name 'shm_*.cc')" ;;
    cli) S="$S $PWD/kaminpar-cli/kaminpar_arguments.cc" ;;
    app) S="$S $PWD/apps/KaMinPar.cc" ;;
    mpi) CXX=mpicxx; S="$S $(find "$PWD/kaminpar-mpi" -name '*.cc')" ;;
    dist) CXX=mpicxx; F="$F -DKAMINPAR_64BIT_WEIGHTS"; S="$S $(find "$PWD/kaminpar-dist" -name '*.cc')" ;;
    *) S="$S $PWD/$s" ;;
    esac
  done
  if [ $CXX = mpicxx ]; then
    export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_vader_single_copy_mechanism=none
    F="$F $(mpicxx --showme:compile)"
    L=$(mpicxx --showme:link)
  fi
  printf '%s\n' $S | xargs -P 8 -I{} sh -c 'o=$(echo "{}" | tr / _); g++ '"$F"' -c "{}" -o "'"$W"'/$o.o"' || { echo "demo does not compile"; exit 3; }
  g++ "$W"/*.o -o "$W/demo" -ltbb -ltbbmalloc -lnuma -lpthread $L || { echo "demo does not link"; exit 3; }
}
