#pragma once
#include "rclcpp/shim_core.hpp"
namespace pal_statistics
{
using IdType = unsigned int;
class StatisticsRegistry;
struct Registration_ { std::shared_ptr<std::map<IdType, std::pair<std::string, std::function<double()>>>> table; std::shared_ptr<std::recursive_mutex> m; IdType id; };
class RegistrationsRAII
{
public:
  RegistrationsRAII() = default;
  RegistrationsRAII(const RegistrationsRAII &) = delete;
  RegistrationsRAII & operator=(const RegistrationsRAII &) = delete;
  RegistrationsRAII(RegistrationsRAII &&) = default;
  RegistrationsRAII & operator=(RegistrationsRAII && o) { remove(); r_ = std::move(o.r_); o.r_.clear(); return *this; }
  ~RegistrationsRAII() { remove(); }
  void add(Registration_ r) { r_.push_back(r); }
  void remove() { for (auto & r : r_) { std::lock_guard<std::recursive_mutex> g(*r.m); r.table->erase(r.id); } r_.clear(); }
  bool removeAll() { remove(); return true; }
  bool enableAll() { return true; }
  bool disableAll() { return true; }
private:
  std::vector<Registration_> r_;
};
}  // namespace pal_statistics
