# Qt value types and well-known types. google::protobuf is linked statically: the generated google::protobuf::Timestamp
# and its likes must not meet the classes of the same name in libprotobuf.so
find_library(VP_PROTOBUF_A NAMES libprotobuf.a REQUIRED)
add_executable(vpqtwk qtwk.cpp qtwk_wk.cpp qtwk_qt.cpp common.cpp)
qtprotobuf_generate(TARGET vpqtwk OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/gen_qtwk" PROTO_FILES "${CMAKE_CURRENT_SOURCE_DIR}/proto/vptypes.proto"
    PROTO_INCLUDES $<TARGET_PROPERTY:QtProtobuf::ProtobufQtTypes,PROTO_INCLUDES>)
target_include_directories(vpqtwk PRIVATE "${CMAKE_BINARY_DIR}/gen_qtwk")
target_link_libraries(vpqtwk PRIVATE QtProtobuf::Protobuf QtProtobuf::ProtobufQtTypes QtProtobuf::ProtobufWellKnownTypes Qt5::Core Qt5::Gui Qt5::Qml
    "${VP_PROTOBUF_A}" -Wl,--exclude-libs,ALL Threads::Threads)
