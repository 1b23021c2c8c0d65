// Stand-in for the Stim library header, which is absent here.  It declares only the data accessors that
// /repo's driver code names; no Stim behaviour is verified.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace stim {
struct DemTarget {
    uint64_t data = 0;
    int kind = 0;  // 0 detector, 1 observable, 2 separator
    bool is_relative_detector_id() const { return kind == 0; }
    bool is_observable_id() const { return kind == 1; }
    bool is_separator() const { return kind == 2; }
    uint64_t val() const { return data; }
    uint64_t raw_id() const { return data; }
};
struct DemInstruction {
    std::vector<double> arg_data;
    std::vector<DemTarget> target_data;
};
struct DetectorErrorModel {
    std::vector<DemInstruction> errors;
    uint64_t detectors = 0, observables = 0;
    uint64_t count_detectors() const { return detectors; }
    uint64_t count_observables() const { return observables; }
    template <typename F>
    void iter_flatten_error_instructions(F f) const {
        for (auto &e : errors) f(e);
    }
};
}  // namespace stim
