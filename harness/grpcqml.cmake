# gRPC from QML: generated clients called by script and GrpcStream elements, against the scripted server
add_library(vprecorder STATIC recorder.cpp recorder.h)
set_target_properties(vprecorder PROPERTIES AUTOMOC ON)
target_link_libraries(vprecorder PUBLIC Qt5::Core Qt5::Qml)
add_executable(vpgrpcqml grpcqml.cpp h2server.cpp)
qtprotobuf_generate(TARGET vpgrpcqml QML OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/gen_grpcqml" PROTO_FILES "${CMAKE_CURRENT_SOURCE_DIR}/proto/vpgrpc.proto")
target_include_directories(vpgrpcqml PRIVATE "${CMAKE_BINARY_DIR}/gen_grpcqml")
target_link_libraries(vpgrpcqml PRIVATE vpcommon vprecorder QtProtobuf::Protobuf QtProtobuf::Grpc Qt5::Core Qt5::Qml Qt5::Network)
add_dependencies(vpgrpcqml protobufquickplugin grpcquickplugin)
