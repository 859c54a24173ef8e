#!/bin/bash
# Compiles metaproxy's filters from the current directory with demo.cpp and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/mpdemo.XXXXXX) || exit 2
trap 'find "$T" -delete' EXIT
cat > "$T/config.hpp" <<'C'
/* Stands for the config.hpp that configure would write on this system. */
#define HAVE_DLFCN_H 1
#define HAVE_DL_SUPPORT 1
#define HAVE_GETRLIMIT 1
#define HAVE_LOCALTIME_R 1
#define HAVE_SYS_SELECT_H 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "metaproxy"
#define VERSION "1.0"
#define VERSION_SHA1 ""
C
mkdir "$T/inc" && ln -s "$D/yazpp" "$T/inc/yazpp"
F="-std=gnu++17 -w -g -O0 $DEMO_FLAGS -I$T -I$R/src -I$R/include -I$T/inc -I/usr/include/libxml2 -DYAZ_POSIX_THREADS=1 -DYAZ_HAVE_XML2=1 -DYAZ_HAVE_XSLT=1 -DYAZ_HAVE_EXSLT=1"
cc1() { g++ $F -c "$1" -o "$T/$(basename "$1" .cpp).o" || touch "$T/failed"; }
n=0
for f in "$D/demo.cpp" "$D/yazpp.cpp" "$R"/src/*.cpp; do
    case "$(basename "$f")" in test_*|tstdl.cpp|filter_dl.cpp) continue;; esac
    if [ "$(basename "$f")" = metaproxy_prog.cpp ]; then
        F="$F -Dmain=mp_main" cc1 "$f" &
    else
        cc1 "$f" &
    fi
    n=$((n+1)); [ $n -ge 8 ] && { wait -n; n=$((n-1)); }
done
wait
if [ -e "$T/failed" ]; then echo "demo: does not compile"; exit 2; fi
L=/usr/lib/x86_64-linux-gnu
g++ $F "$T"/*.o -o "$T/demo" $L/libboost_{thread,regex,system,chrono,atomic,date_time}.a $L/libyaz.a -lexslt -lxslt -lxml2 -lgnutls -ldl -lpthread || { echo "demo: does not link"; exit 2; }
cd "$T" && timeout 200 ./demo
rc=$?
echo "demo: exit $rc"
exit $rc
