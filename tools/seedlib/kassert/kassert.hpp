// Minimal stand-in for the KAssert submodule (not checked out in this sandbox): evaluates assertions
// up to KASSERT_ASSERTION_LEVEL (default 10 = "light", the level of KaMinPar's default build) and
// aborts if one fails.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#ifndef KASSERT_ASSERTION_LEVEL
#define KASSERT_ASSERTION_LEVEL 10
#endif
#define KASSERT_ENABLED(level) ((level) <= KASSERT_ASSERTION_LEVEL)
#define KASSERT_1(e) KASSERT_3(e, "", 30)
#define KASSERT_2(e, m) KASSERT_3(e, m, 30)
#define KASSERT_3(e, m, l)                                                                         \
  do {                                                                                             \
    if constexpr (KASSERT_ENABLED(l)) {                                                            \
      if (!(e)) {                                                                                  \
        std::cerr << __FILE__ << ":" << __LINE__ << ": KASSERT failed: " #e << " " << m            \
                  << std::endl;                                                                    \
        std::abort();                                                                              \
      }                                                                                            \
    }                                                                                              \
  } while (0)
#define KASSERT_PICK(a, b, c, n, ...) n
#define KASSERT(...) KASSERT_PICK(__VA_ARGS__, KASSERT_3, KASSERT_2, KASSERT_1, 0)(__VA_ARGS__)
