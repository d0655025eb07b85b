// Common prefix of every generated analysis unit: standard headers first, then raintt.hpp parsed
// as by the project's compiler (gcc); the library headers follow (lib.hpp is generated from
// /repo/include/tfhe++.hpp without the extern template declarations, so that bodies are visible).
#include <bits/stdc++.h>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/array.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>
#include <randen.h>
#pragma push_macro("__clang__")
#undef __clang__
#include "params.hpp"
#include "raintt.hpp"
#pragma pop_macro("__clang__")
