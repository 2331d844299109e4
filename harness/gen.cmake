# the programs linked with the code generated for random schemas (that code is built by vp/gen.py)
foreach(kind wire value)
    add_library(vpgen_${kind} STATIC ${kind}.cpp types.cpp)
    target_link_libraries(vpgen_${kind} PUBLIC vpcommon QtProtobuf::Protobuf Qt5::Core Qt5::Qml)
endforeach()
