add_executable(vpconc conc.cpp tsan_qt.cpp)
set_target_properties(vpconc PROPERTIES ENABLE_EXPORTS ON)
target_link_libraries(vpconc PRIVATE -Wl,--whole-archive vpcore -Wl,--no-whole-archive ${CMAKE_DL_LIBS})
