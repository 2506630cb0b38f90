#pragma once
#include "diagnostic_msgs/msg/diagnostic_status.hpp"
#include "rclcpp/node.hpp"
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::msg::DiagnosticStatus
{
public:
  template <class T> void add(const std::string & k, const T & v)
  {
    diagnostic_msgs::msg::KeyValue kv; kv.key = k;
    std::stringstream s; s << v; kv.value = s.str(); values.push_back(kv);
  }
  void addf(const std::string & k, const char * f, ...) { add(k, std::string(f)); }
  void summary(unsigned char l, const std::string & m) { level = l; message = m; }
  void summary(const diagnostic_msgs::msg::DiagnosticStatus & s) { summary(s.level, s.message); }
  void mergeSummary(unsigned char l, const std::string & m)
  {
    if (l > 0 && level > 0) { if (!message.empty()) message += "; "; message += m; }
    else if (l > level) message = m;
    if (l > level) level = l;
  }
  void mergeSummary(const diagnostic_msgs::msg::DiagnosticStatus & s) { mergeSummary(s.level, s.message); }
  void summaryf(unsigned char l, const char * f, ...) { summary(l, f); }
  void mergeSummaryf(unsigned char l, const char * f, ...) { mergeSummary(l, f); }
  void clearSummary() { summary(0, ""); }
  void clear() { clearSummary(); values.clear(); }
};
class Updater
{
public:
  template <class N> explicit Updater(N, double = 1.0) {}
  template <class T> void add(const std::string & n, T * c, void (T::*f)(DiagnosticStatusWrapper &)) { tasks[n] = [c, f](DiagnosticStatusWrapper & s) { (c->*f)(s); }; }
  void add(const std::string & n, std::function<void(DiagnosticStatusWrapper &)> f) { tasks[n] = f; }
  void setHardwareID(const std::string &) {}
  void setHardwareIDf(const char *, ...) {}
  void broadcast(unsigned char, const std::string &) {}
  void force_update() {}
  std::map<std::string, std::function<void(DiagnosticStatusWrapper &)>> tasks;
};
}  // namespace diagnostic_updater
