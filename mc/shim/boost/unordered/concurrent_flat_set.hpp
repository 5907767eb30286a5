#pragma once
// Boost < 1.84 has no concurrent_flat_set.  The code under test only includes the header; it uses
// unordered_flat_set, which the real header brings in.
#include <boost/unordered/unordered_flat_set.hpp>
