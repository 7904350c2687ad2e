#include <cassert>
#include "trans.hpp"
#include "transmission_interface/four_bar_linkage_transmission.hpp"
std::shared_ptr<transmission_interface::Transmission> make_fb(const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off, int n_args)
{
  if (n_args < 3) return std::make_shared<transmission_interface::FourBarLinkageTransmission>(ar, jr);
  return std::make_shared<transmission_interface::FourBarLinkageTransmission>(ar, jr, off);
}
