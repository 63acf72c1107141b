function(_vp_pch)
target_precompile_headers(cmmc PRIVATE <algorithm> <array> <cassert> <cstdint> <cstdlib> <cstring> <cmath> <deque> <functional> <fstream> <iostream> <iterator> <limits> <list> <map> <memory> <memory_resource> <numeric> <optional> <queue> <set> <sstream> <string> <string_view> <tuple> <type_traits> <unordered_map> <unordered_set> <utility> <variant> <vector> <bitset> <chrono> <charconv> <iomanip> "${CMAKE_SOURCE_DIR}/cmmc/IR/Module.hpp" "${CMAKE_SOURCE_DIR}/cmmc/Transforms/TransformPass.hpp" "${CMAKE_SOURCE_DIR}/cmmc/IR/IRBuilder.hpp" "${CMAKE_SOURCE_DIR}/cmmc/CodeGen/MIR.hpp")
endfunction()
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL _vp_pch)
