#pragma once
#include "rclcpp/shim_core.hpp"
namespace rclcpp
{
class Logger
{
public:
  enum class Level { Unset = 0, Debug = 10, Info = 20, Warn = 30, Error = 40, Fatal = 50 };
  Logger() : name_(std::make_shared<std::string>("")) {}
  explicit Logger(const std::string & n) : name_(std::make_shared<std::string>(n)) {}
  const char * get_name() const { return name_->c_str(); }
  Logger get_child(const std::string & s) const { return Logger(*name_ + "." + s); }
  void set_level(Level) {}
  Level get_effective_level() const { return Level::Info; }
private:
  std::shared_ptr<std::string> name_;
};
inline Logger get_logger(const std::string & name) { return Logger(name); }
}  // namespace rclcpp
