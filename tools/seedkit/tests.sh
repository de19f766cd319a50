#!/bin/bash
# tests.sh REPOCOPY SCRATCH: the stable tests and the repository's own tests against the stand-ins
R=$1; T=$2
mkdir -p $T/lb $T/tt
cd $R/code/dynamix
ls *.cpp compat/pmr/*.cpp | xargs -P 8 -I{} sh -c "g++ -std=c++17 -O0 -I$R/code -I/verif/shim -c {} -o $T/lb/\$(echo {} | tr '/.' '__').o" || exit 1
gcc -std=c11 -I$R/code -I/verif/shim -c $R/code/dnmx/mixin_common_funcs.c -o $T/lb/mcf.o || exit 1
cd $R/test
cat > $T/one.sh <<X
b=\${1%.cpp}
g++ -std=c++17 -O0 -I$R/code -I/verif/shim -I/tmp/ds \$1 /tmp/ds/main.o $T/lb/*.o -lpthread -o $T/tt/\$b > $T/tt/\$b.log 2>&1 || { echo BUILDFAIL \$1; exit 1; }
timeout 200 $T/tt/\$b > $T/tt/\$b.out 2>&1 || { echo RUNFAIL \$1; tail -20 $T/tt/\$b.out; exit 1; }
X
# what does not build on the unchanged tree either is left out
ls t-*.cpp fuzz*.cpp | xargs -P 8 -n 1 bash $T/one.sh || exit 1
# stable tests
sed "s#/repo#$R#g" /opt/vp/build.sh > $T/build.sh; cp -r /opt/vp/subset $T/subset 2>/dev/null; sed -i "s#/opt/vp/subset#$T/subset#" $T/build.sh; grep -rl /repo $T/subset | xargs -r sed -i "s#/repo#$R#g"
rm -rf $R/_build; bash $T/build.sh > $T/build.out 2>&1 || { tail -20 $T/build.out; exit 1; }
