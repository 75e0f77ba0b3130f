# usage: cc.sh OUT MAIN.cpp repo-source ...   builds a demonstration from /repo's current sources
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; main=$2; shift 2
R=$(pwd); srcs=""
for s in "$@"; do srcs="$srcs $R/src/$s.cpp"; done
[ -f $R/_build/config.hpp ] || { mkdir -p "$(dirname $out)/cfg"; printf '#define HAVE_UNISTD_H 1\n#define HAVE_DLFCN_H 1\n#define HAVE_SYS_STAT_H 1\n#define HAVE_SYS_TYPES_H 1\n#define HAVE_SYS_SELECT_H 1\n#define VERSION "1"\n#define PACKAGE "metaproxy"\n' > "$(dirname $out)/cfg/config.hpp"; CFG="-I$(dirname $out)/cfg"; }
g++ -std=c++17 -g -O1 -w $XCXX -I$here -I$R/_build $CFG -I$R/include -I$R/src $(pkg-config --cflags yaz libxml-2.0 libxslt 2>/dev/null) \
  $main $srcs -o $out $(pkg-config --libs yaz) -lboost_thread -lboost_system -lboost_regex -lxslt -lexslt -lxml2 -ldl -lpthread
