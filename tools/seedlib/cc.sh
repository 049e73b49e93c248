# compile DEMO.cpp against the sources in the current directory and run it: cc.sh demo.cpp [more args to g++]
R="$PWD"; D="$(cd "$(dirname "$0")" && pwd)"; B="$(mktemp -d /tmp/demo.XXXXXX)"; trap '/bin/rm -rf "$B"' EXIT
F="-DABC_NAMESPACE=pabc -DABC_NO_USE_READLINE -DALICE_ENV_HOME=ALICE_HOME -DDISABLE_NAUTY -DFMT_HEADER_ONLY -DLIN64 -I$R/cli -I$R/include -I$R -I$R/include/database -I$R/libs/kitty/include -I$R/include/utils -I$R/include/operations -I$R/libs/abcsat -I$R/libs/fmt -I$R/libs/lorina -I$R/libs/rang -I$R/include/flow -I$R/libs/json -isystem $R/libs -isystem $R/libs/percy -isystem $R/libs/alice/include -isystem $R/libs/alice/lib/cli11 -std=gnu++17 -w"
demo() { g++ -O1 -D_GLIBCXX_ASSERTIONS $F -fopenmp -I"$D" "$D/demo.cpp" $EXTRA -o "$B/d" -lpthread -ldl || return 2; (cd "$B" && timeout 200 ./d); }
SAT="$R/libs/abcsat/AbcGlucose.cpp $R/libs/abcsat/Glucose.cpp $R/libs/abcsat/SimpSolver.cpp $R/libs/abcsat/satSolver.cpp $R/libs/abcsat/satStore.cpp"
