#!/bin/bash
# run in /repo after the build: exit 0 if the program beside this script finds the behaviour it expects
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
W=$(mktemp -d) || exit 3; trap 'rm -rf "$W"' EXIT
S=$R/src; O=$R/_build/cpp; L=
for l in app-framework exec expr intfc xml-parser value utils; do L="$L -L$O/src/$l -Wl,-rpath,$O/src/$l"; done
g++ -std=c++17 -w -DNDEBUG -include cstdint -include cstring -I"$D" -I$O -I$O/src/utils -I$S/utils -I$S/value -I$S/expr -I$S/intfc -I$S/exec \
 -I$S/xml-parser -I$S/app-framework -I$R/_build/tree/src/third-party/pugixml/src "$D/demo.cc" -o "$W/demo" $L \
 -lPlexilAppFramework -lPlexilXmlParser -lPlexilExec -lPlexilIntfc -lPlexilExpr -lPlexilValue -lPlexilUtils -lpugixml -lpthread || exit 3
cd "$W" && timeout 100 ./demo
