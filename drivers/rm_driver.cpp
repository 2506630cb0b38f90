// Drives the real ResourceManager with the fake hardware of common.hpp.  Reads a script (one JSON
// object per line), writes one JSON event per public call: arguments, plugin callbacks, result and
// the projected state afterwards.
#include "common.hpp"
#include "rclcpp/executors.hpp"
using namespace drv;
namespace hi = hardware_interface;

struct RM : hi::ResourceManager
{
  using hi::ResourceManager::ResourceManager;
};
struct World
{
  std::shared_ptr<rclcpp::Clock> clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  std::unique_ptr<RM> rm;
  int cmrate = 100, notify = 0;
  std::map<std::string, hi::LoanedCommandInterface> loans;
  std::map<std::string, std::vector<hi::LoanedStateInterface>> sloans;
  std::vector<std::string> bad_availability;
};
static World * W;
static bool thrown = false;

static json project()
{
  json s = json::object();
  if (!W->rm) { return {{"comps", json::object()}, {"acmd", json::array()}, {"ast", json::array()}, {"cmd", json::array()}, {"st", json::array()}, {"claimed", json::array()}, {"held", json::array()}, {"init", false}, {"info", json::object()}, {"incons", false}}; }
  json comps = json::object(), info = json::object();
  bool incons = false;
  for (const auto & [n, i] : W->rm->get_components_status())
  {
    comps[n] = i.state.label();
    if (i.state.id() != state_by_label(i.state.label()).id()) incons = true;
    info[n] = {{"t", i.type}, {"g", i.group}, {"r", i.rw_rate}, {"as", i.is_async},
               {"cmd", keyset(i.command_interfaces)}, {"st", keyset(i.state_interfaces)},
               {"dup", keyset(i.command_interfaces).size() != i.command_interfaces.size() || keyset(i.state_interfaces).size() != i.state_interfaces.size()}};
  }
  const auto av = W->rm->available_command_interfaces(), as = W->rm->available_state_interfaces();
  const auto cmds = W->rm->command_interface_keys(), sts = W->rm->state_interface_keys();
  if (keyset(av).size() != av.size() || keyset(as).size() != as.size()) incons = true;
  json claimed = json::array(), held = json::array();
  for (const auto & k : cmds)
  {
    if (W->rm->command_interface_is_claimed(k)) claimed.push_back(k);
    if (W->rm->command_interface_is_available(k) != (keyset(av).count(k) > 0)) incons = true;
    if (!W->rm->command_interface_exists(k)) incons = true;
  }
  for (const auto & k : sts)
  {
    if (W->rm->state_interface_is_available(k) != (keyset(as).count(k) > 0)) incons = true;
    if (!W->rm->state_interface_exists(k)) incons = true;
  }
  for (const auto & [k, l] : W->loans) held.push_back(k);
  const size_t n = W->rm->actuator_components_size() + W->rm->sensor_components_size() + W->rm->system_components_size();
  if (n != comps.size()) incons = true;
  return {{"comps", comps}, {"acmd", keyset(av)}, {"ast", keyset(as)}, {"cmd", cmds}, {"st", sts}, {"claimed", claimed},
          {"held", held}, {"init", W->rm->are_components_initialized()}, {"info", info}, {"incons", incons}};
}

static json step(const json & o)
{
  const std::string op = o["op"];
  json res;
  if (op == "RESET")
  {
    W->loans.clear(); W->sloans.clear();
    W->rm.reset();
    W->cmrate = o.value("cmrate", 100);
    G().comp_opt.clear();
    G().handler.clear();
    shim::vtime().now_ns = 1'000'000'000;
    hi::ResourceManagerParams p;
    p.clock = W->clock; p.logger = rclcpp::get_logger("rm");
    p.update_rate = static_cast<unsigned>(W->cmrate);
    p.allow_controller_activation_with_inactive_hardware = o.value("allow", false);
    p.return_failed_hardware_names_on_return_deactivate_write_cycle_ = o.value("retn", true);
    W->rm = std::make_unique<RM>(p, false);
    W->notify = 0;
    W->rm->set_on_component_state_switch_callback([] { W->notify++; });
    return true;
  }
  if (o.contains("dt")) shim::vtime().now_ns += o["dt"].get<int64_t>() * 1000;
  if (op == "LOAD")
  {
    json comps = o["comps"];
    for (auto & c : comps)
    {
      const std::string bad = c.value("bad", "");
      json opt = c.value("opt", json::object());
      if (bad == "plugin") c["plugin"] = "no_such_plugin";
      if (bad == "drop") opt["drop"] = c["st"][0];
      if (bad == "dropc") opt["dropc"] = c["cmd"][0];
      if (bad == "xjoint") { std::string i = c["st"][0]; c["xjoint"] = i.substr(0, i.rfind('/')); }
      G().comp_opt[c["n"]] = opt;
    }
    hi::ResourceManagerParams p;
    p.clock = W->clock; p.logger = rclcpp::get_logger("rm");
    p.update_rate = static_cast<unsigned>(W->cmrate);
    p.robot_description = urdf(comps);
    const std::string mut = o.value("mut", "");
    if (mut == "garbage") p.robot_description = "<robot name=\"r\"><ros2_control";
    if (mut == "noctl") p.robot_description = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"base\"/></robot>";
    if (mut == "empty") p.robot_description = "";
    try { res = W->rm->load_and_initialize_components(p); }
    catch (const std::exception &) { res = false; thrown = true; }
  }
  else if (op == "SET")
  {
    auto s = o.value("byid", false) ? rclcpp_lifecycle::State(state_by_label(o["to"]).id(), "x")
             : o.value("bylabel", false) ? rclcpp_lifecycle::State(0, o["to"].get<std::string>()) : state_by_label(o["to"]);
    W->notify = 0;
    res = W->rm->set_component_state(o["c"], s) == return_type::OK;
  }
  else if (op == "READ" || op == "WRITE")
  {
    const rclcpp::Time t(shim::vtime().now_ns.load(), RCL_STEADY_TIME);
    const rclcpp::Duration p(std::chrono::nanoseconds(o.value("p", 10000) * 1000ll));
    try
    {
      auto r = op == "READ" ? W->rm->read(t, p) : W->rm->write(t, p);
      res = {{"r", r.result == return_type::OK ? "OK" : r.result == return_type::ERROR ? "ERROR" : "DEACTIVATE"},
             {"n", r.failed_hardware_names}};
    }
    catch (...) { res = {{"r", "THROW"}, {"n", json::array()}}; }
  }
  else if (op == "CLAIM")
  {
    const std::string k = o["i"];
    try
    {
      auto l = W->rm->claim_command_interface(k);
      const bool nm = l.get_name() == k;
      auto moved = std::move(l);   // moving a loan must not give the interface back
      auto it = W->loans.find(k);
      if (it != W->loans.end()) { W->loans.erase(it); res = true; }
      else res = nm;
      W->loans.emplace(k, std::move(moved));
    }
    catch (const std::exception &) { res = false; }
  }
  else if (op == "RELEASE") { res = W->loans.erase(o["i"].get<std::string>()) > 0; }
  else if (op == "SCLAIM")
  {
    const std::string k = o["i"];
    try
    {
      auto a = W->rm->claim_state_interface(k);
      auto b = W->rm->claim_state_interface(k);
      res = a.get_name() == k && b.get_name() == k;
    }
    catch (const std::exception &) { res = false; }
  }
  else if (op == "PREP" || op == "PERF")
  {
    const std::vector<std::string> a = o["a"], b = o["b"];
    try { res = op == "PREP" ? W->rm->prepare_command_mode_switch(a, b) : W->rm->perform_command_mode_switch(a, b); }
    catch (...) { res = false; thrown = true; }
  }
  else if (op == "SHUT") { res = W->rm->shutdown_components(); }
  else if (op == "RUN")
  {
    // one pending asynchronous cycle runs now; a read() or write() of the manager may fall into it
    const std::string c = o["c"], mid = o.value("mid", "");
    json midres = "", before = json::array(), during = json::array();
    if (!mid.empty())
      G().on_read = [&](const std::string & n)
      {
        if (n != c) return;
        G().on_read = nullptr;
        before = G().calls;
        G().calls = json::array();
        json m = o;
        m["op"] = mid; m.erase("dt");
        midres = step(m);
        during = G().calls;
        G().calls = before;
      };
    bool ran = false;
    auto h = G().handler.find(c);
    if (h != G().handler.end())
    {
      auto it = shim::manual_async().pending.find(h->second);
      if (it != shim::manual_async().pending.end()) ran = it->second();
    }
    G().on_read = nullptr;
    res = {{"ran", ran}, {"mid", midres}, {"during", during}};
  }
  else { throw std::runtime_error("unknown op " + op); }
  return res;
}

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  register_fakes();
  shim::vtime().enabled = true;
  shim::manual_async().enabled = true;
  W = new World;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  while (std::getline(in, line))
  {
    if (line.empty()) continue;
    json o = json::parse(line);
    G().calls = json::array();
    G().out.clear();
    if (o.contains("out"))
      for (auto & [k, v] : o["out"].items()) G().out[k] = v;
    out << "";  // keep the stream alive across a crash
    json ev = o;
    ev.erase("comps");
    thrown = false;
    json r = step(o);
    G().out.clear();
    ev["res"] = r;
    ev["thrown"] = thrown;
    ev["calls"] = G().calls;
    ev["s"] = project();
    if (o.contains("comps")) ev["comps"] = o["comps"];
    ev["now"] = shim::vtime().now_ns.load() / 1000;
    if (!ev.contains("out")) ev["out"] = json::object();
    out << ev.dump() << "\n";
    out.flush();
  }
  W->loans.clear();
  W->rm.reset();
  return 0;
}
