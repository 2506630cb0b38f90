// Drives mock_components/GenericSystem through the real ResourceManager.
#include "common.hpp"
#include "rclcpp/executors.hpp"
using namespace drv;
namespace hi = hardware_interface;

static const double U = 4096.;
static const int NaNv = 2000000001, Inf = 2000000002, NInf = 2000000003, Huge_ = 2000000004, None = 2000000005;
static int enc(double v)
{
  if (std::isnan(v)) return NaNv;
  if (std::isinf(v)) return v > 0 ? Inf : NInf;
  return std::fabs(v) * U > 1.9e9 ? Huge_ : static_cast<int>(std::llround(v * U));
}
static double dec(int v)
{
  return v == NaNv ? std::nan("") : v == Inf ? INFINITY : v == NInf ? -INFINITY : v / U;
}
static bool is_bool(const std::string & k)
{
  const auto n = k.substr(k.rfind('/') + 1);
  return n == "brake" || n == "on";
}
static std::string num(int v)
{
  char b[64];
  snprintf(b, sizeof b, "%.12f", v / U);
  return b;
}
static std::string iface(const char * tag, const std::string & n, int iv)
{
  std::string s = std::string("<") + tag + "_interface name=\"" + n + "\"" + (is_bool("/" + n) ? " data_type=\"bool\"" : "") + ">";
  if (iv != NaNv) s += "<param name=\"initial_value\">" + (is_bool("/" + n) ? std::string(iv ? "true" : "false") : num(iv)) + "</param>";
  return s + "</" + tag + "_interface>";
}
static std::string part(const char * tag, const json & c)
{
  std::string s = std::string("<") + tag + " name=\"" + c["n"].get<std::string>() + "\">";
  if (c.contains("cmd"))
    for (auto & i : c["cmd"]) s += iface("command", i, NaNv);
  for (auto & i : c["st"]) s += iface("state", i["n"], i["iv"]);
  return s + "</" + tag + ">";
}
static std::string make_urdf(const json & o)
{
  auto prm = [](const char * n, const std::string & v) { return std::string("<param name=\"") + n + "\">" + v + "</param>"; };
  auto b = [&](const char * n, const char * k) { return o[k].get<bool>() ? prm(n, o["dyn"].get<bool>() ? "True" : "true") : o["dyn"].get<bool>() ? prm(n, "false") : std::string(); };
  std::string s = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"base\"/>", body;
  for (auto & j : o["joints"])
  {
    const std::string n = j["n"];
    s += "<link name=\"l_" + n + "\"/><joint name=\"" + n + "\" type=\"continuous\"><parent link=\"base\"/><child link=\"l_" + n + "\"/><axis xyz=\"0 0 1\"/>";
    if (j["of"] != "") s += "<mimic joint=\"" + j["of"].get<std::string>() + "\" multiplier=\"" + std::to_string(j["mul"].get<int>()) + "\" offset=\"" + num(j["mo"]) + "\"/>";
    s += "</joint>";
    body += part("joint", j);
  }
  for (auto & j : o["sens"]) body += part("sensor", j);
  for (auto & j : o["gpios"]) body += part("gpio", j);
  s += "<ros2_control name=\"hw\" type=\"system\"><hardware><plugin>mock_components/GenericSystem</plugin>";
  s += b("calculate_dynamics", "dyn") + b("disable_commands", "dis") + b("mock_sensor_commands", "ms") + b("mock_gpio_commands", "mg");
  if (o["off"] != 0 || o["cust"] != "") s += prm("position_state_following_offset", num(o["off"]));
  if (o["cust"] != "") s += prm("custom_interface_with_following_offset", o["cust"]);
  return s + "</hardware>" + body + "</ros2_control></robot>";
}

static std::unique_ptr<hi::ResourceManager> rm;
static std::map<std::string, std::unique_ptr<hi::LoanedCommandInterface>> cm;
static std::map<std::string, std::unique_ptr<hi::LoanedStateInterface>> st;
static auto wall = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);

static json step(const json & o)
{
  const std::string op = o["op"];
  if (op == "RESET") return "OK";
  if (op == "NEW")
  {
    cm.clear(); st.clear();
    rm.reset();
    shim::vtime().now_ns = 1'000'000'000;
    hi::ResourceManagerParams p;
    p.clock = wall; p.logger = rclcpp::get_logger("rm"); p.update_rate = 100;
    p.robot_description = make_urdf(o);
    p.allow_controller_activation_with_inactive_hardware = false;
    p.return_failed_hardware_names_on_return_deactivate_write_cycle_ = true;
    try { rm = std::make_unique<hi::ResourceManager>(p, true); }
    catch (const std::exception & e) { return std::string("THROW"); }
    return rm->are_components_initialized() ? "OK" : "NO";
  }
  if (!rm) return "NONE";
  if (op == "LIFE")
  {
    auto to = state_by_label(o["to"]);
    return rm->set_component_state("hw", to) == return_type::OK ? "OK" : "ERROR";
  }
  if (op == "SETC")
  {
    auto it = cm.find(o["k"]);
    if (it == cm.end()) return "NONE";
    const bool ok = is_bool(o["k"]) ? it->second->set_value<bool>(o["v"].get<int>() != 0) : it->second->set_value(dec(o["v"]));
    return ok ? "OK" : "ERROR";
  }
  if (op == "READ" || op == "WRITE")
  {
    const auto ns = o["q"].get<int64_t>() * 250'000'000;
    shim::vtime().now_ns += ns;
    const rclcpp::Time t(shim::vtime().now_ns.load(), RCL_STEADY_TIME);
    const rclcpp::Duration p{std::chrono::nanoseconds(ns)};
    try { return (op == "READ" ? rm->read(t, p) : rm->write(t, p)).result == return_type::OK ? "OK" : "ERROR"; }
    catch (...) { return "THROW"; }
  }
  if (op == "PREP" || op == "PERF")
  {
    std::vector<std::string> a = o["start"], b = o["stop"];
    return (op == "PREP" ? rm->prepare_command_mode_switch(a, b) : rm->perform_command_mode_switch(a, b)) ? "OK" : "NO";
  }
  return "BADOP";
}
int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  rclcpp::init(argc, argv);
  std::ifstream in(argv[1]);
  std::ofstream f(argv[2]);
  std::string line;
  while (std::getline(in, line))
  {
    if (line.empty()) continue;
    json e = json::parse(line);
    e["res"] = step(e);
    e["life"] = "";
    if (rm)
    {
      for (const auto & [n, i] : rm->get_components_status()) e["life"] = i.state.label();
      for (auto & k : rm->available_command_interfaces())
        if (!cm.count(k)) cm[k] = std::make_unique<hi::LoanedCommandInterface>(rm->claim_command_interface(k));
      for (auto & k : rm->available_state_interfaces())
        if (!st.count(k)) st[k] = std::make_unique<hi::LoanedStateInterface>(rm->claim_state_interface(k));
    }
    json s = json::object(), c = json::object();
    auto val = [](const std::string & k, auto & h) -> int
    {
      if (is_bool(k)) { auto v = h->template get_optional<bool>(); return v ? *v * static_cast<int>(U) : None; }
      auto v = h->get_optional();
      return v ? enc(*v) : None;
    };
    for (auto & [k, h] : st) s[k] = val(k, h);
    for (auto & [k, h] : cm) c[k] = val(k, h);
    e["st"] = s; e["cm"] = c;
    f << e.dump() << "\n" << std::flush;
  }
  cm.clear(); st.clear(); rm.reset();
  return 0;
}
