# fixed schema + glue, shared by the wire, value and concurrency monitors
file(GLOB vp_core_protos "${VP_GEN}/core/*.proto")
file(GLOB vp_core_glue "${VP_GEN}/core/glue_core_*.cpp")
add_library(vpcore STATIC types.cpp ${vp_core_glue})
qtprotobuf_generate(TARGET vpcore OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/gen_core" PROTO_FILES ${vp_core_protos})
target_include_directories(vpcore PUBLIC "${CMAKE_BINARY_DIR}/gen_core" "${VP_GEN}/core")
target_link_libraries(vpcore PUBLIC vpcommon QtProtobuf::Protobuf Qt5::Core Qt5::Qml)
