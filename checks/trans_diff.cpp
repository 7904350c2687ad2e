#include <cassert>
#include "trans.hpp"
#include "transmission_interface/differential_transmission.hpp"
std::shared_ptr<transmission_interface::Transmission> make_diff(const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off, int n_args)
{
  if (n_args < 3) return std::make_shared<transmission_interface::DifferentialTransmission>(ar, jr);
  return std::make_shared<transmission_interface::DifferentialTransmission>(ar, jr, off);
}
