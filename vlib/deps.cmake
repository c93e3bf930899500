# Included right after project(dredd): the protobuf submodule is empty, use the system packages.
find_package(Protobuf REQUIRED)
add_library(protobuf INTERFACE)
target_link_libraries(protobuf INTERFACE protobuf::libprotobuf)
