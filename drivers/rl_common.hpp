// Shared by the drivers of the command limits: values are integers in units of 2^-20 (2000000000:
// NaN), periods are 1/dn seconds.
#pragma once
#include <functional>

#include "common.hpp"
using namespace drv;
namespace hi = hardware_interface;
static const double U = 1048576.0;
static const int64_t NANV = 2000000000;
static bool exact = true;
static double dec(const json & j) { return j.get<int64_t>() == NANV ? std::nan("") : static_cast<double>(j.get<int64_t>()) / U; }
static json enc(double v)
{
  if (std::isnan(v)) return NANV;
  const double r = std::round(v * U);
  if (r != v * U) exact = false;
  if (std::fabs(r) > 1.9e9) return v > 0 ? 1999999999 : -1999999999;
  return static_cast<int64_t>(r);
}
static const std::map<std::string, std::string> QN = {{"p", "position"}, {"v", "velocity"}, {"e", "effort"},
                                                      {"a", "acceleration"}, {"j", "jerk"}, {"x", "torque"}};
static json seen;   // commands as the hardware sees them: joint -> quantity -> value
static json names;  // joint -> list of commanded quantities
static std::map<std::string, std::string> comp_of;
static std::map<const void *, std::function<void()>> looks;  // how to look at the commands of a component
static std::function<void()> on_perform = [] {};
template <class Base> struct Hw : Base
{
  Hw() { looks[this] = [this] { look(); }; }
  ~Hw() override { looks.erase(this); }
  void look()
  {
    for (auto & [j, qs] : names.items())
      if (comp_of[j] == this->n)
        for (const std::string q : qs) seen[j][q] = enc(this->template get_command<double>(j + "/" + QN.at(q)));
  }
  return_type perform_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    const auto r = Base::perform_command_mode_switch(a, b);
    on_perform();
    return r;
  }
  return_type write(const rclcpp::Time &, const rclcpp::Duration &) override
  {
    look();
    return return_type::OK;
  }
};
struct Act : Hw<FakeActuator> {};
struct Sys : Hw<FakeSystem> {};
static std::string num(const json & j) { return json(dec(j)).dump(); }
static std::string describe(const json & o)
{
  std::string links = "<link name=\"base\"/>", ctl;
  for (const auto & c : o["comps"])
  {
    ctl += "<ros2_control name=\"" + c["n"].get<std::string>() + "\" type=\"" + c["t"].get<std::string>() +
           "\"><hardware><plugin>rl_" + c["t"].get<std::string>() + "</plugin></hardware>";
    for (const auto & j : o["joints"])
    {
      if (j["c"] != c["n"]) continue;
      const std::string n = j["n"], type = j["type"], tag = type == "gpio" ? "gpio" : "joint";
      ctl += "<" + tag + " name=\"" + n + "\">";
      if (!j["en"]) ctl += "<limits enable=\"false\"/>";
      for (const auto & i : j["cmd"])
      {
        ctl += "<command_interface name=\"" + QN.at(i["q"]) + "\">";
        if (!i["min"].empty()) ctl += "<param name=\"min\">" + num(i["min"][0]) + "</param>";
        if (!i["max"].empty()) ctl += "<param name=\"max\">" + num(i["max"][0]) + "</param>";
        if (!i["en"]) ctl += "<limits enable=\"false\"/>";
        ctl += "</command_interface>";
      }
      for (const std::string q : j["st"]) ctl += "<state_interface name=\"" + QN.at(q) + "\"/>";
      ctl += "</" + tag + ">";
      if (type == "gpio") continue;
      links += "<link name=\"l_" + n + "\"/><joint name=\"" + n + "\" type=\"" + type +
               "\"><parent link=\"base\"/><child link=\"l_" + n + "\"/>";
      if (!j["base"].empty())
        links += "<limit lower=\"" + num(j["base"][0]["lo"]) + "\" upper=\"" + num(j["base"][0]["hi"]) + "\" velocity=\"" +
                 num(j["base"][0]["v"]) + "\" effort=\"" + num(j["base"][0]["e"]) + "\"/>";
      if (!j["soft"].empty())
      {
        const auto & s = j["soft"][0];
        links += "<safety_controller soft_lower_limit=\"" + num(s["lo"]) + "\" soft_upper_limit=\"" + num(s["hi"]) +
                 "\" k_position=\"" + json(s["k"].get<double>() / 2).dump() + "\" k_velocity=\"" +
                 json(s["kv"].get<double>() / 2).dump() + "\"/>";
      }
      links += "</joint>";
    }
    ctl += "</ros2_control>";
  }
  return "<?xml version=\"1.0\"?><robot name=\"r\">" + links + ctl + "</robot>";
}

// the robot of a NEW operation, before anything is built for it
static void forget(const json & o)
{
  names = json::object(), seen = json::object();
  comp_of.clear();
  for (const auto & j : o["joints"])
  {
    const std::string n = j["n"];
    comp_of[n] = j["c"];
    names[n] = json::array();
    seen[n] = json::object();
    for (const auto & i : j["cmd"]) names[n].push_back(i["q"]);
  }
}
static std::string key(const std::string & n, const std::string & q) { return n + "/" + QN.at(q); }
static void register_hw()
{
  shim::plugins<hi::ActuatorInterface>()["rl_actuator"] = [] { return new Act; };
  shim::plugins<hi::SystemInterface>()["rl_system"] = [] { return new Sys; };
}
