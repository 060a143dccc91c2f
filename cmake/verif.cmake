# Included by CMake right after project(Peridigm).
# 1. Takes out the one source file that needs a header which is not installed,
#    as the reference build of the sandbox does.
# 2. Adds the C++ harnesses of this directory to the project's build.
function(verif_adjust)
  get_target_property(sources PeridigmLib SOURCES)
  list(FILTER sources EXCLUDE REGEX "/Peridigm_ExodusDiscretization\\.cpp$")
  set_property(TARGET PeridigmLib PROPERTY SOURCES ${sources})
  if(TARGET MeshConverter)
    set_property(TARGET MeshConverter PROPERTY EXCLUDE_FROM_ALL TRUE)
  endif()
  set(defsym "-Wl,--defsym=_ZN10PeridigmNS20ExodusDiscretizationC1ERKN7Teuchos3RCPIK11Epetra_CommEERKNS2_INS1_13ParameterListEEE=0")
  set_property(TARGET Peridigm APPEND PROPERTY LINK_OPTIONS ${defsym})
  get_target_property(libs Peridigm LINK_LIBRARIES)
  get_target_property(dirs PeridigmLib INCLUDE_DIRECTORIES)
  file(GLOB harnesses ${VERIF_HARNESS_DIR}/*.cpp)
  foreach(src ${harnesses})
    get_filename_component(name ${src} NAME_WE)
    add_executable(${name} EXCLUDE_FROM_ALL ${src})
    set_property(TARGET ${name} PROPERTY INCLUDE_DIRECTORIES ${dirs} ${VERIF_HARNESS_DIR})
    target_link_libraries(${name} ${libs})
    set_property(TARGET ${name} APPEND PROPERTY LINK_OPTIONS ${defsym})
  endforeach()
endfunction()
cmake_language(DEFER CALL verif_adjust)
