add_executable(vpwire wire.cpp)
target_link_libraries(vpwire PRIVATE -Wl,--whole-archive vpcore -Wl,--no-whole-archive)
