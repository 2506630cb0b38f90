#include <memory>
#include <vector>

#include "transmission_interface/simple_transmission.hpp"
using Vec = std::vector<double>;
std::shared_ptr<transmission_interface::Transmission> make_simple(const Vec & ar, const Vec & jr, const Vec & off)
{
  (void)ar;
  return std::make_shared<transmission_interface::SimpleTransmission>(jr.at(0), off.at(0));
}
