# gRPC monitors: a scripted HTTP/2 server and generated clients in one process
find_package(OpenSSL REQUIRED)
add_executable(vpgrpc grpc.cpp h2server.cpp tlsproxy.cpp)
qtprotobuf_generate(TARGET vpgrpc OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/gen_grpc" PROTO_FILES "${CMAKE_CURRENT_SOURCE_DIR}/proto/vpgrpc.proto")
target_include_directories(vpgrpc PRIVATE "${CMAKE_BINARY_DIR}/gen_grpc")
target_link_libraries(vpgrpc PRIVATE vpcommon QtProtobuf::Protobuf QtProtobuf::Grpc Qt5::Core Qt5::Qml Qt5::Network OpenSSL::SSL OpenSSL::Crypto)
