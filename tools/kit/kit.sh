# Sourced by demo.sh (cwd: the repository, built by build.sh).  Builds the Python module in a
# scratch directory: the objects of the build folder, the few sources build.sh leaves out, and
# the two small stand-ins beside this file.  Sets W (scratch, removed at exit) and the environment.
set -e
K=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
R=$PWD
B=$R/_build/devsim
W=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
I=""
for d in utility Geometry math models Equation Data Circuit/data errorSystem MathEval common_api AutoEquation GeomModels meshing Circuit pythonapi commands main; do I="$I -I$R/src/$d"; done
mkdir -p $W/o $W/devsim
cp $K/kit/symdiff.cc $K/kit/*.hh $W/ 2>/dev/null || true
F="-std=gnu++17 -O0 -fPIC -w -fvisibility=hidden -DDEVSIM_EXTENDED_PRECISION -DLOAD_MATHLIBS -DUSE_BLAS -DUSE_ITERATIVE_SOLVER -DUSE_LAPACK -DUSE_MKL_PARDISO -DDEVSIM_COPYRIGHT_YEAR=\"2009\" -DDEVSIM_VERSION_STRING=\"2.10\" $I -I$W"
{
  for s in DefaultDerivatives EdgeExprModel EquationFunctions InterfaceModelExprEval InterfaceNodeExprModel ModelExprEval NodeExprModel TetrahedronEdgeExprModel TriangleEdgeExprModel; do
    echo "g++ $F -c $R/src/AutoEquation/$s.cc -o $W/o/$s.o"
  done
  echo "g++ $F -c $R/src/main/ResetAllData.cc -o $W/o/ResetAllData.o"
  echo "g++ $F -c $W/symdiff.cc -o $W/o/symdiff.o"
  echo "g++ -std=c++17 -O1 -fPIC -shared -w $K/kit/mathlib.cc -o $W/libmkl_rt.so"
} | tr '\n' '\0' | xargs -0 -P 8 -I{} sh -c '{}' > $W/log 2>&1 || { cat $W/log; echo "kit: compile failed"; exit 0; }
A=$(find $B/src/AutoEquation -name '*.o'; find $B/src/pythonapi -path '*_py3*' -name '*.o'; find $B/src/main -path '*devsim_py3.dir*' -name '*.o')
g++ -shared -o $W/devsim/devsim_py3.so $W/o/*.o $A -Wl,--start-group $(find $B/src -name 'lib*.a') -Wl,--end-group $R/_build/getrf/libgetrf.a -lquadmath -ldl >> $W/log 2>&1 || { cat $W/log; echo "kit: link failed"; exit 0; }
cp $R/dist/__init__.py $W/devsim/__init__.py
cp -r $R/python_packages $R/umfpack $W/devsim/ 2>/dev/null || true
export PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 DEVSIM_MATH_LIBS=$W/libmkl_rt.so OMP_NUM_THREADS=1
