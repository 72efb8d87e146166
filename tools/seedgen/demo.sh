#!/bin/bash
# exit 0: the property holds; run with cwd = repository after the build
here=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build; Q=/usr/include/x86_64-linux-gnu/qt5
export DEMO_DIR=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$DEMO_DIR"' EXIT
g++ -std=gnu++17 -fPIC -w -fno-access-control -I$Q -I$Q/QtCore -I$Q/QtNetwork -I$Q/QtWebSockets -I$R -I$R/common -I$R/libnymea-remoteproxy -I$R/libnymea-remoteproxyclient -I"$here" \
    "$here/demo.cpp" -o "$DEMO_DIR/demo" -L$B/libnymea-remoteproxy -L$B/libnymea-remoteproxyclient -lnymea-remoteproxy -lnymea-remoteproxyclient -lQt5WebSockets -lQt5Network -lQt5Core || exit 2
export LD_LIBRARY_PATH=$B/libnymea-remoteproxy:$B/libnymea-remoteproxyclient QT_LOGGING_RULES="*=false" QT_QPA_PLATFORM=offscreen
timeout 120 "$DEMO_DIR/demo"; r=$?; [ $r -eq 0 ] || echo "exit $r"; exit $r
