# compile flags (those of /repo's CMake build, minus the sanitizer) and the property -> harness table
FLAGS="-DABC_NAMESPACE=pabc -DABC_NO_USE_READLINE -DALICE_ENV_HOME=ALICE_HOME -DDISABLE_NAUTY -DFMT_HEADER_ONLY -DLIN64 -I$R/cli -I$R/include -I$R -I$R/include/database -I$R/libs/kitty/include -I$R/include/utils -I$R/include/operations -I$R/libs/abcsat -I$R/libs/fmt -I$R/libs/lorina -I$R/libs/rang -I$R/include/flow -I$R/libs/json -isystem $R/libs -isystem $R/libs/percy -isystem $R/libs/alice/include -isystem $R/libs/alice/lib/cli11 -std=gnu++17 -w"
harness_of() { case "$1" in
  C01|C02|C03|C04|C05|C06) echo opt;;
  C07|C08) echo map;;
  C09|C10|C25|C26) echo net;;
  C11|C12|C13|C14|C15) echo io;;
  C16|C17|C18|C20) echo cli;;
  C19|C21|C22|C23|C24|C27|C28|C29|C30|C31|C32) echo misc;;
  C33) echo flow;;
  *) ;; esac; }
SATSRC="AbcGlucose Glucose SimpSolver satSolver satStore"
build_harness() { # name output
  local CXX="g++ -O1 -g1 -D_GLIBCXX_ASSERTIONS $FLAGS" objs="" f pids=""
  case "$1" in
  map|cli|misc|flow) for f in $SATSRC; do $CXX -c "$R/libs/abcsat/$f.cpp" -o "$2.$f.o" & pids="$pids $!"; objs="$objs $2.$f.o"; done;;
  esac
  $CXX -fopenmp -I"$V/harness" -c "$V/harness/$1.cpp" -o "$2.o" || { wait; return 1; }
  for f in $pids; do wait $f || return 1; done
  $CXX -fopenmp "$2.o" $objs -o "$2" -lpthread -ldl
}
