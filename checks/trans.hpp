#pragma once
#include <memory>
#include <vector>

#include "transmission_interface/exception.hpp"
#include "transmission_interface/handle.hpp"
#include "transmission_interface/transmission.hpp"
using TransPtr = std::shared_ptr<transmission_interface::Transmission>;
TransPtr make_simple(const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off, int n_args);
TransPtr make_diff(const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off, int n_args);
TransPtr make_fb(const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off, int n_args);
