// Drives the joint limiters.  Values are integers in units of 2^-20 (2000000000: NaN), the period is
// 1/dn seconds.
#include <nlohmann/json.hpp>

#include <cmath>
#include <fstream>
#include <iostream>

#include "joint_limits/joint_saturation_limiter.hpp"
#include "joint_limits/joint_soft_limiter.hpp"
#include "rclcpp/rclcpp.hpp"
using json = nlohmann::json;
using namespace joint_limits;
using Data = JointControlInterfacesData;
using Point = trajectory_msgs::msg::JointTrajectoryPoint;
static const double U = 1048576.0;
static const int64_t NANV = 2000000000;
static bool exact = true;

static double dec(const json & j, double u) { return j.get<int64_t>() == NANV ? std::nan("") : static_cast<double>(j.get<int64_t>()) / u; }
static json enc(double v, double u)
{
  if (std::isnan(v)) return NANV;
  const double r = std::round(v * u);
  if (r != v * u) exact = false;
  if (std::fabs(r) > 1.9e9) return v > 0 ? 1999999999 : -1999999999;
  return static_cast<int64_t>(r);
}
static Data data(const json & j)
{
  Data d;
  d.joint_name = "j";
  auto get = [&](const char * q, std::optional<double> & x) { if (!j.at(q).empty()) x = dec(j.at(q)[0], U); };
  get("p", d.position), get("v", d.velocity), get("e", d.effort), get("a", d.acceleration), get("j", d.jerk);
  return d;
}
static json show(const Data & d)
{
  auto put = [](const std::optional<double> & x) { json a = json::array(); if (x) a.push_back(enc(*x, U)); return a; };
  return {{"p", put(d.position)}, {"v", put(d.velocity)}, {"e", put(d.effort)}, {"a", put(d.acceleration)}, {"j", put(d.jerk)}};
}
static JointLimits limits(const json & j, double u)
{
  JointLimits l;
  l.has_position_limits = j["hp"], l.min_position = dec(j["lo"], u), l.max_position = dec(j["hi"], u);
  l.has_velocity_limits = j["hv"], l.max_velocity = dec(j["v"], u);
  l.has_acceleration_limits = j["ha"], l.max_acceleration = dec(j["a"], u);
  l.has_deceleration_limits = j["hd"], l.max_deceleration = dec(j["d"], u);
  if (j.contains("hj")) l.has_jerk_limits = j["hj"], l.max_jerk = dec(j["j"], u);
  if (j.contains("he")) l.has_effort_limits = j["he"], l.max_effort = dec(j["e"], u);
  return l;
}
static std::vector<double> vec(const json & j, double u)
{
  std::vector<double> v;
  for (const auto & x : j) v.push_back(dec(x, u));
  return v;
}
static json show(const std::vector<double> & v, double u)
{
  json a = json::array();
  for (double x : v) a.push_back(enc(x, u));
  return a;
}
static rclcpp::Duration period(const json & o)
{
  const int dn = o["dn"];
  return rclcpp::Duration(std::chrono::nanoseconds(dn == 0 ? 0 : 1000000000 / dn));
}

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::unique_ptr<JointLimiterInterface<Data>> lim;
  std::unique_ptr<JointLimiterInterface<Point>> traj;
  auto node = std::make_shared<rclcpp::Node>("limiter");
  std::string line;
  while (std::getline(in, line))
  {
    json o = json::parse(line);
    const std::string op = o["op"];
    exact = true;
    if (op == "NEW")
    {
      if (o["kind"] == "soft") lim = std::make_unique<JointSoftLimiter>();
      else lim = std::make_unique<JointSaturationLimiter<Data>>();
      std::vector<SoftJointLimits> soft;
      if (o["S"]["has"])
      {
        SoftJointLimits s;
        s.min_position = dec(o["S"]["lo"], U), s.max_position = dec(o["S"]["hi"], U);
        s.k_position = dec(o["S"]["k"], 2), s.k_velocity = dec(o["S"]["kv"], 2);
        soft.push_back(s);
      }
      o["res"] = lim->init({"j"}, {limits(o["L"], U)}, soft, nullptr, node->get_node_logging_interface());
    }
    else if (op == "ENF")
    {
      Data act = data(o["act"]), des = data(o["des"]);
      o["threw"] = false;
      o["lim"] = false;
      try { o["lim"] = lim->enforce(act, des, period(o)); }
      catch (const std::runtime_error &) { o["threw"] = true; }
      o["res"] = show(des);
    }
    else if (op == "RST") lim->reset_internals(), o["res"] = true;
    else if (op == "TNEW")
    {
      traj = std::make_unique<JointSaturationLimiter<Point>>();
      std::vector<JointLimits> ls;
      std::vector<std::string> names;
      for (const auto & l : o["L"]) ls.push_back(limits(l, 16)), names.push_back("j" + std::to_string(names.size()));
      o["res"] = traj->init(names, ls, {}, nullptr, node->get_node_logging_interface());
    }
    else if (op == "TENF")
    {
      // inputs in units of 1/16, resulting positions in 1/2048, velocities and accelerations in 1/128
      Point act, des;
      act.positions = vec(o["ap"], 16), act.velocities = vec(o["av"], 16);
      des.positions = vec(o["p"], 16), des.velocities = vec(o["v"], 16), des.accelerations = vec(o["a"], 16);
      o["lim"] = traj->enforce(act, des, period(o));
      o["res"] = {{"p", show(des.positions, 2048)}, {"v", show(des.velocities, 128)}, {"a", show(des.accelerations, 128)}};
    }
    else return 2;
    o["ex"] = exact;
    out << o.dump() << "\n" << std::flush;
  }
  return 0;
}
