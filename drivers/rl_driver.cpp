// Drives the command limits of the resource manager.
#include "hardware_interface/loaned_command_interface.hpp"
#include "rl_common.hpp"

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  register_hw();
  shim::vtime().enabled = true;
  auto clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  std::unique_ptr<hi::ResourceManager> rm;
  std::map<std::string, hi::LoanedCommandInterface> loans;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  auto key = [](const json & o) { return ::key(o["n"], o["q"]); };
  auto ok = [](bool b) { return b ? "OK" : "NO"; };
  while (std::getline(in, line))
  {
    if (line.empty()) continue;
    json o = json::parse(line);
    const std::string op = o["op"];
    json res = "OK";
    exact = true;
    G().out.clear();
    if (o.contains("out"))
      for (auto & [k, v] : o["out"].items()) G().out[k] = v;
    const rclcpp::Duration second(std::chrono::seconds(1));
    shim::vtime().now_ns += 1'000'000'000;
    const rclcpp::Time t(shim::vtime().now_ns.load(), RCL_STEADY_TIME);
    if (op == "NEW")
    {
      loans.clear();
      rm.reset();
      forget(o);
      hi::ResourceManagerParams p;
      p.clock = clock, p.logger = rclcpp::get_logger("rm");
      p.update_rate = o["rate"];
      rm = std::make_unique<hi::ResourceManager>(p, false);
      p.robot_description = describe(o);
      try
      {
        if (o["imp"]) rm->import_joint_limiters(p.robot_description);
        res = ok(rm->load_and_initialize_components(p));
        auto active = state_by_label("active");
        for (const auto & c : o["comps"])
          if (rm->set_component_state(c["n"], active) != return_type::OK) res = "NO";
      }
      catch (const std::exception &) { res = "THROW"; }
    }
    else if (op == "CLAIM")
    {
      try { loans.emplace(key(o), rm->claim_command_interface(key(o))); }
      catch (const std::exception &) { res = "THROW"; }
    }
    else if (op == "RELEASE") res = ok(loans.erase(key(o)) > 0);
    else if (op == "SETC")
    {
      try { res = ok(loans.at(key(o)).set_value(dec(o["v"]))); }
      catch (const std::exception &) { res = "THROW"; }
    }
    else if (op == "READ")
    {
      G().sv.clear();
      for (auto & [j, qs] : o["v"].items())
        for (auto & [q, v] : qs.items()) G().sv[j + "/" + QN.at(q)] = dec(v);
      res = ok(rm->read(t, second).result == return_type::OK);
    }
    else if (op == "ENF")
    {
      const int dn = o["dn"];
      try { res = ok(rm->enforce_command_limits(rclcpp::Duration(std::chrono::nanoseconds(dn == 0 ? 0 : 1000000000 / dn)))); }
      catch (const std::exception &) { res = "THROW"; }
    }
    else if (op == "PERF")
    {
      std::vector<std::string> a, b;
      for (const auto & i : o["a"]) a.push_back(key(i));
      for (const auto & i : o["b"]) b.push_back(key(i));
      res = ok(rm->prepare_command_mode_switch(a, b) && rm->perform_command_mode_switch(a, b));
    }
    else return 2;
    std::ignore = rm->write(t, second);
    o["res"] = res;
    o["hw"] = seen;
    o["ex"] = exact;
    out << o.dump() << "\n";
    out.flush();
  }
  loans.clear();
  rm.reset();
  return 0;
}
