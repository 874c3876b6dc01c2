// Every scenario is compiled once per epoch of the library; P is the epoch's namespace.
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <string.h>
#include "../sim.hpp"
#if EPOCH == 2025
#include <pystd2025.hpp>
#include <pystd2025_btree.hpp>
#include <pystd2025_threading.hpp>
namespace P = pystd2025;
#define EP "@2025"
#else
#include <pystd2026.hpp>
#include <pystd2026_threading.hpp>
namespace P = pystd2026;
#define EP "@2026"
#endif
#undef SIM_SCENARIO
#define SIM_SCENARIO(fn, weight)                                                                   \
    static void fn();                                                                              \
    static ::sim::Scenario scn_##fn(#fn EP, fn, weight);                                           \
    static void fn()
using namespace sim;
