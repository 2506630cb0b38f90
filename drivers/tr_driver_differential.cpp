#include <memory>
#include <vector>

#include "transmission_interface/differential_transmission.hpp"
using Vec = std::vector<double>;
std::shared_ptr<transmission_interface::Transmission> make_differential(const Vec & ar, const Vec & jr, const Vec & off)
{
  (void)ar;
  return std::make_shared<transmission_interface::DifferentialTransmission>(ar, jr, off);
}
