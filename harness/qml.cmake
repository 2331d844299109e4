# QML monitors: messages generated with the QML option, driven from script
file(GLOB vp_qml_glue "${VP_GEN}/qml/glue_qml_*.cpp")
add_executable(vpqml qml.cpp types.cpp ${vp_qml_glue})
qtprotobuf_generate(TARGET vpqml QML OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/gen_qml" PROTO_FILES "${VP_GEN}/qml/vqml.proto")
target_include_directories(vpqml PRIVATE "${CMAKE_BINARY_DIR}/gen_qml" "${VP_GEN}/qml")
target_link_libraries(vpqml PRIVATE vpcommon QtProtobuf::Protobuf Qt5::Core Qt5::Qml)
add_dependencies(vpqml protobufquickplugin)
