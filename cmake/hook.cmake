# Included right after project() of the staged repository: the sandbox's own hook (it leaves out what needs the
# missing microjson submodule), and warnings of instrumented builds are not errors.
include(/opt/vp/support/hook.cmake)
add_compile_options(-Wno-error)
