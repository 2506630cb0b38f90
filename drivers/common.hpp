// Shared by the drivers that run the real resource manager / controller manager: a global log of
// plugin callbacks, scripted callback outcomes, fake hardware plugins and a URDF writer.
#pragma once
#include <nlohmann/json.hpp>

#include <atomic>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "pluginlib/class_loader.hpp"
#include "rclcpp/rclcpp.hpp"
#include "realtime_tools/async_function_handler.hpp"

namespace drv
{
using json = nlohmann::json;
using hardware_interface::CallbackReturn;
using hardware_interface::return_type;

struct Globals
{
  std::recursive_mutex m;
  json calls = json::array();              // plugin callbacks since the last flush
  std::map<std::string, std::string> out;  // "<component>.<callback>" -> outcome, default OK
  std::map<std::string, double> sv;        // state values to put in place at the next read
  bool log_cmd = false;                    // log command values seen by write()
  bool ints = false;                       // ... as plain integers
  std::map<std::string, json> comp_opt;    // per component options from the script
  std::map<std::string, const void *> handler;           // component -> its asynchronous handler
  std::function<void(const std::string &)> on_read;      // called in the middle of a read
};
inline Globals & G()
{
  static auto * g = new Globals;
  return *g;
}
inline std::string outcome(const std::string & c, const std::string & cb)
{
  std::lock_guard<std::recursive_mutex> l(G().m);
  auto it = G().out.find(c + "." + cb);
  return it == G().out.end() ? "OK" : it->second;
}
inline void log_call(json j)
{
  std::lock_guard<std::recursive_mutex> l(G().m);
  G().calls.push_back(std::move(j));
}
struct Odd
{
  int x = 7;
};
inline void maybe_throw(const std::string & o)
{
  if (o == "X") throw std::runtime_error("injected");
  if (o == "Y") throw Odd{};
}
inline CallbackReturn cbret(const std::string & o)
{
  maybe_throw(o);
  return o == "F" ? CallbackReturn::FAILURE : o == "E" ? CallbackReturn::ERROR : CallbackReturn::SUCCESS;
}
inline return_type rwret(const std::string & o)
{
  maybe_throw(o);
  return o == "E" ? return_type::ERROR : o == "D" ? return_type::DEACTIVATE : return_type::OK;
}
// scaled integer for a value; TLC has 32-bit integers
inline json sval(double v, double scale = 1e6)
{
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  const double r = std::round(v * scale);
  if (std::fabs(r) > 2.0e9) return v > 0 ? "big" : "-big";
  return static_cast<int64_t>(r);
}
inline int64_t us(const rclcpp::Duration & d)
{
  return static_cast<int64_t>(std::llround(static_cast<double>(d.nanoseconds()) / 1000.0));
}
inline std::string plain_label(const std::string & l) { return l; }

template <class Base> class Fake : public Base
{
public:
  static constexpr bool is_sensor = std::is_same_v<Base, hardware_interface::SensorInterface>;
  std::string n;
  json opt = json::object();
  CallbackReturn on_init(const hardware_interface::HardwareComponentInterfaceParams & p) override
  {
    n = p.hardware_info.name;
    if (G().comp_opt.count(n)) opt = G().comp_opt[n];
    if (p.hardware_info.is_async && !shim::manual_async().order.empty()) G().handler[n] = shim::manual_async().order.back();
    const auto o = outcome(n, "init");
    log_call({{"c", n}, {"cb", "init"}, {"o", o}, {"st", "unknown"}});
    const auto base = Base::on_init(p);
    const auto r = cbret(o);
    return r == CallbackReturn::SUCCESS ? base : r;
  }
  std::string st() { return this->get_lifecycle_state().label(); }
  CallbackReturn life(const char * cb)
  {
    const auto o = outcome(n, cb);
    log_call({{"c", n}, {"cb", cb}, {"o", o}, {"st", st()}});
    return cbret(o);
  }
  CallbackReturn on_configure(const rclcpp_lifecycle::State &) override { return life("configure"); }
  CallbackReturn on_cleanup(const rclcpp_lifecycle::State &) override { return life("cleanup"); }
  CallbackReturn on_activate(const rclcpp_lifecycle::State &) override { return life("activate"); }
  CallbackReturn on_deactivate(const rclcpp_lifecycle::State &) override { return life("deactivate"); }
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return life("shutdown"); }
  CallbackReturn on_error(const rclcpp_lifecycle::State &) override { return life("error"); }
  std::vector<hardware_interface::StateInterface::ConstSharedPtr> on_export_state_interfaces() override
  {
    auto v = Base::on_export_state_interfaces();
    if (opt.contains("drop"))
      v.erase(
        std::remove_if(
          v.begin(), v.end(), [&](auto & i) { return i->get_name() == opt["drop"].template get<std::string>(); }),
        v.end());
    return v;
  }
  std::vector<hardware_interface::CommandInterface::SharedPtr> on_export_command_interfaces() override
  {
    auto v = Base::on_export_command_interfaces();
    if (opt.contains("dropc"))
      v.erase(
        std::remove_if(
          v.begin(), v.end(), [&](auto & i) { return i->get_name() == opt["dropc"].template get<std::string>(); }),
        v.end());
    return v;
  }
  return_type read(const rclcpp::Time &, const rclcpp::Duration & period) override
  {
    const auto o = outcome(n, "read");
    log_call({{"c", n}, {"cb", "read"}, {"o", o}, {"st", st()}, {"p", us(period)}});
    for (const auto & [k, v] : G().sv)
      if (this->has_state(k)) this->set_state(k, v);
    if (G().on_read) { const auto f = G().on_read; f(n); }
    return rwret(o);
  }
  return_type do_write(const rclcpp::Duration & period)
  {
    const auto o = outcome(n, "write");
    json j = {{"c", n}, {"cb", "write"}, {"o", o}, {"st", st()}, {"p", us(period)}};
    if (G().log_cmd)
    {
      json v = json::object();
      for (const auto & [k, d] : this->joint_command_interfaces_)
      {
        const double x = this->template get_command<double>(k);
        v[k] = !G().ints ? sval(x) : std::isnan(x) ? json(999999) : json(static_cast<int64_t>(std::llround(x)));
      }
      j["v"] = v;
    }
    log_call(j);
    return rwret(o);
  }
  return_type prepare_command_mode_switch(
    const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    return mode("prepare", a, b);
  }
  return_type perform_command_mode_switch(
    const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    return mode("perform", a, b);
  }
  return_type mode(const char * cb, const std::vector<std::string> & a, const std::vector<std::string> & b)
  {
    const auto o = outcome(n, cb);
    log_call({{"c", n}, {"cb", cb}, {"o", o}, {"st", st()}, {"a", a}, {"b", b}});
    return rwret(o);
  }
};
struct FakeActuator : Fake<hardware_interface::ActuatorInterface>
{
  return_type write(const rclcpp::Time &, const rclcpp::Duration & p) override { return do_write(p); }
};
struct FakeSystem : Fake<hardware_interface::SystemInterface>
{
  return_type write(const rclcpp::Time &, const rclcpp::Duration & p) override { return do_write(p); }
};
struct FakeSensor : Fake<hardware_interface::SensorInterface>
{
};
inline void register_fakes()
{
  shim::plugins<hardware_interface::ActuatorInterface>()["fake_actuator"] = [] { return new FakeActuator; };
  shim::plugins<hardware_interface::SystemInterface>()["fake_system"] = [] { return new FakeSystem; };
  shim::plugins<hardware_interface::SensorInterface>()["fake_sensor"] = [] { return new FakeSensor; };
}
// Robot description for a list of components
//   {n, t (actuator|sensor|system), g (group or ""), r (rw_rate), as (async), cmd [if..], st [if..],
//    plugin (optional), xjoint (optional: leave this joint out of the kinematic part)}
// Interface names are "<prefix>/<interface>"; prefixes starting with g are gpios, with s sensors.
inline std::string urdf(const json & comps, const json & limits = json::object())
{
  std::string links = "<link name=\"base\"/>", ctl;
  std::set<std::string> done;
  for (const auto & c : comps)
  {
    std::vector<std::string> order;
    std::map<std::string, std::pair<std::vector<std::string>, std::vector<std::string>>> parts;
    auto add = [&](const std::string & full, bool cmd)
    {
      const auto k = full.rfind('/');
      const auto pre = full.substr(0, k);
      if (!parts.count(pre)) order.push_back(pre);
      (cmd ? parts[pre].first : parts[pre].second).push_back(full.substr(k + 1));
    };
    for (const auto & i : c.value("cmd", json::array())) add(i, true);
    for (const auto & i : c.value("st", json::array())) add(i, false);
    std::string body;
    for (const auto & pre : order)
    {
      const char * tag = pre[0] == 'g' ? "gpio" : pre[0] == 's' ? "sensor" : "joint";
      body += "<" + std::string(tag) + " name=\"" + pre + "\">";
      for (const auto & i : parts[pre].first)
      {
        const auto full = pre + "/" + i;
        if (limits.contains(full))
          body += "<command_interface name=\"" + i + "\"><param name=\"min\">" + limits[full][0].dump() +
                  "</param><param name=\"max\">" + limits[full][1].dump() + "</param></command_interface>";
        else
          body += "<command_interface name=\"" + i + "\"/>";
      }
      for (const auto & i : parts[pre].second) body += "<state_interface name=\"" + i + "\"/>";
      body += "</" + std::string(tag) + ">";
      if (std::string(tag) == "joint" && !done.count(pre) && c.value("xjoint", "") != pre)
      {
        done.insert(pre);
        std::string lim;
        std::string type = "continuous";
        if (limits.contains(pre))
        {
          type = "revolute";
          const auto & l = limits[pre];
          lim = "<limit lower=\"" + l["lo"].dump() + "\" upper=\"" + l["hi"].dump() + "\" velocity=\"" +
                l["vel"].dump() + "\" effort=\"" + l["eff"].dump() + "\"/>";
          if (l.contains("soft"))
            lim += "<safety_controller soft_lower_limit=\"" + l["soft"][0].dump() + "\" soft_upper_limit=\"" +
                   l["soft"][1].dump() + "\" k_position=\"" + l["soft"][2].dump() + "\" k_velocity=\"" +
                   l["soft"][3].dump() + "\"/>";
        }
        links += "<link name=\"l_" + pre + "\"/><joint name=\"" + pre + "\" type=\"" + type +
                 "\"><parent link=\"base\"/><child link=\"l_" + pre + "\"/>" + lim + "</joint>";
      }
    }
    const std::string t = c["t"];
    ctl += "<ros2_control name=\"" + c["n"].get<std::string>() + "\" type=\"" + t + "\"";
    if (c.value("r", 0) != 0 || c.value("rset", false)) ctl += " rw_rate=\"" + std::to_string(c.value("r", 0)) + "\"";
    if (c.value("as", false)) ctl += " is_async=\"true\"";
    ctl += "><hardware><plugin>" + c.value("plugin", "fake_" + t) + "</plugin>";
    if (!c.value("g", "").empty()) ctl += "<group>" + c["g"].get<std::string>() + "</group>";
    if (c.contains("params"))
      for (auto & [k, v] : c["params"].items())
        ctl += "<param name=\"" + k + "\">" + (v.is_string() ? v.get<std::string>() : v.dump()) + "</param>";
    ctl += "</hardware>" + body + "</ros2_control>";
  }
  return "<?xml version=\"1.0\"?><robot name=\"r\">" + links + ctl + "</robot>";
}
inline rclcpp_lifecycle::State state_by_label(const std::string & l)
{
  using S = lifecycle_msgs::msg::State;
  uint8_t id = S::PRIMARY_STATE_UNKNOWN;
  if (l == "unconfigured") id = S::PRIMARY_STATE_UNCONFIGURED;
  if (l == "inactive") id = S::PRIMARY_STATE_INACTIVE;
  if (l == "active") id = S::PRIMARY_STATE_ACTIVE;
  if (l == "finalized") id = S::PRIMARY_STATE_FINALIZED;
  return rclcpp_lifecycle::State(id, l);
}
inline std::set<std::string> keyset(const std::vector<std::string> & v) { return {v.begin(), v.end()}; }
}  // namespace drv
