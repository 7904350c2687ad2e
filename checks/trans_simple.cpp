#include <cassert>
#include "trans.hpp"
#include "transmission_interface/simple_transmission.hpp"
std::shared_ptr<transmission_interface::Transmission> make_simple(const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off, int n_args)
{
  (void)ar;
  if (n_args < 3) return std::make_shared<transmission_interface::SimpleTransmission>(jr.at(0));
  return std::make_shared<transmission_interface::SimpleTransmission>(jr.at(0), off.at(0));
}
