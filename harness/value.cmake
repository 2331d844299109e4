add_executable(vpvalue value.cpp)
target_link_libraries(vpvalue PRIVATE -Wl,--whole-archive vpcore -Wl,--no-whole-archive Qt5::Qml)
