# Builds a small program against the library and the generator in /repo/_build, in a scratch directory removed on exit.
#   here=folder of demo.sh; demo_build "<generator options>" "<proto files>" <main.cpp>   -> $W/demo
set -u
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
R=/repo; B=$R/_build
LIBS="-L$B/src/protobuf -L$B/src/grpc -L$B/src/wellknowntypes -L$B/src/qttypes"
export LD_LIBRARY_PATH=$B/src/protobuf:$B/src/grpc:$B/src/wellknowntypes:$B/src/qttypes QT_QPA_PLATFORM=offscreen
QTI=$(pkg-config --cflags Qt5Core Qt5Qml Qt5Network Qt5Gui)
QTL=$(pkg-config --libs Qt5Core Qt5Qml Qt5Network Qt5Gui)
MOC=$(ls /usr/lib/qt5/bin/moc /usr/bin/moc 2>/dev/null | head -1)
INC="-I$W/gen -I$W -I$R/src/protobuf -I$R/src/grpc -I$R/src/qttypes -I$B/include/Protobuf -I$B/include/Grpc -I$B/include/ProtobufQtTypes $(find $B/src -type d \( -name QtProtobuf -o  -name generated \) -printf '-I%p ' 2>/dev/null)"
demo_build() {
    local opts="$1" protos="$2" main="$3" extra="${4:-}"
    mkdir -p "$W/gen"
    if [ -n "$protos" ]; then
        (cd "$here" && QT_PROTOBUF_OPTIONS="$opts" protoc --plugin=protoc-gen-qtprotobufgen=$B/src/generator/qtprotobufgen --qtprotobufgen_out="$W/gen" -I. $protos) || exit 99
    fi
    local objs="" pids=""
    for h in $(find "$W/gen" -name '*.h'); do
        if grep -q Q_OBJECT "$h"; then
            $MOC -I"$R/src/protobuf" -DQT_QML_LIB "$h" -o "$h.moc.cpp" || exit 99
        fi
    done
    for c in $(find "$W/gen" -name '*.cpp') "$here/$main"; do
        o="$W/$(echo "$c" | tr / _).o"; objs="$objs $o"
        g++ -std=c++14 -fPIC -O0 -w -DQT_QML_LIB ${DEMO_FLAGS:-} $QTI $INC -I"$here" -c "$c" -o "$o" & pids="$pids $!"
    done
    for p in $pids; do wait $p || exit 99; done
    g++ ${DEMO_FLAGS:-} $objs -o "$W/demo" $LIBS -lQt5Protobuf $extra $QTL -lpthread || exit 99
}
