# serializer plugins: one source, several libraries that differ in the metadata they declare and in the tag their serializers write
find_package(Qt5 COMPONENTS Core Qml CONFIG REQUIRED)
function(vp_plugin file meta)
    set(dir "${CMAKE_BINARY_DIR}/plugin_${file}")
    file(MAKE_DIRECTORY "${dir}")
    file(WRITE "${dir}/meta.json.in" "${meta}\n")
    configure_file("${dir}/meta.json.in" "${dir}/meta.json" COPYONLY)
    configure_file("${CMAKE_CURRENT_SOURCE_DIR}/plugin/plugin.h" "${dir}/plugin.h" COPYONLY)
    configure_file("${CMAKE_CURRENT_SOURCE_DIR}/plugin/plugin.cpp" "${dir}/plugin.cpp" COPYONLY)
    add_library(${file} SHARED "${dir}/plugin.cpp" "${dir}/plugin.h")
    set_target_properties(${file} PROPERTIES AUTOMOC ON LIBRARY_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/plugins")
    target_compile_definitions(${file} PRIVATE VP_TAG="${file}" ${ARGN})
    target_link_libraries(${file} PRIVATE Qt5::Core Qt5::Qml QtProtobuf::Protobuf)
endfunction()
vp_plugin(vpplain [[{"name":"Plain","author":"vp","version":1.5,"protobufVersion":3.0,"types":["protobuf","json"],"rating":7}]])
vp_plugin(vpone [[{"name":"One type","author":"vp","version":2,"protobufVersion":3.25,"types":["text"],"rating":-3}]])
vp_plugin(vpmany [[{"name":"Many.types/é漢","author":"vp","version":0.125,"protobufVersion":2,"types":["protobuf","xml","x-ü","protobuf2","PROTOBUF","a b"],"rating":2147483647}]])
vp_plugin(vptwin [[{"name":"Plain","author":"vp","version":9.5,"protobufVersion":9.0,"types":["protobuf","cbor"],"rating":99}]])
vp_plugin(vpbuiltin [[{"name":"Default","author":"vp","version":4.5,"protobufVersion":4.0,"types":["protobuf","own"],"rating":5}]])
vp_plugin(vpnone [[{"name":"No types","author":"vp","version":6.5,"protobufVersion":5.5,"types":[],"rating":0}]])
vp_plugin(vpcase [[{"name":"plain","author":"vp","version":1.75,"protobufVersion":3.5,"types":["json","protobuf"],"rating":1}]])
vp_plugin(vpalien [[{"name":"Alien","author":"vp","version":8.5,"protobufVersion":8.0,"types":["protobuf"],"rating":8}]] VP_ALIEN)
add_executable(vpplugin plugin.cpp common.cpp)
qtprotobuf_generate(TARGET vpplugin OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/gen_plugin" PROTO_FILES "${CMAKE_CURRENT_SOURCE_DIR}/proto/vpplugin.proto")
target_include_directories(vpplugin PRIVATE "${CMAKE_BINARY_DIR}/gen_plugin" "${VP_SRC}/src/protobuf")
target_link_libraries(vpplugin PRIVATE QtProtobuf::Protobuf Qt5::Core Qt5::Qml protobuf::libprotobuf Threads::Threads)
add_dependencies(vpplugin vpplain vpone vpmany vptwin vpbuiltin vpnone vpcase vpalien)
