// Drives the command limits through the real controller manager: a cycle of its control loop is
// recorded as the reading, the commands set by the controllers, the enforcement of the limits,
// changes of what is claimed and the writing, in this order.
#include "cmloop.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager/controller_manager.hpp"
#include "rclcpp/executors.hpp"
#include "rl_common.hpp"
#include "std_msgs/msg/string.hpp"
namespace ci = controller_interface;
namespace srv = controller_manager_msgs::srv;

static json evs = json::array();
static void emit(json e)
{
  exact = true;
  for (auto & [p, f] : looks) f();
  e["hw"] = seen;
  e["ex"] = exact;
  e["out"] = json::object();
  evs.push_back(std::move(e));
}
static int enforcing = -1;   // enforcement to come in the running cycle: its dn
static void enforced(const char * res)
{
  if (enforcing < 0) return;
  const int dn = enforcing;
  enforcing = -1;
  emit({{"op", "ENF"}, {"dn", dn}, {"res", res}});
}
static json todo = json::array();     // commands to set in this cycle
static std::map<std::string, std::vector<std::string>> users;  // controller -> interfaces
struct Ctl;
static std::set<Ctl *> live;
struct Ctl : ci::ControllerInterface
{
  Ctl() { live.insert(this); }
  ~Ctl() override { live.erase(this); }
  ci::CallbackReturn on_init() override { return ci::CallbackReturn::SUCCESS; }
  ci::InterfaceConfiguration command_interface_configuration() const override
  {
    return {ci::interface_configuration_type::INDIVIDUAL, users[get_node()->get_name()]};
  }
  ci::InterfaceConfiguration state_interface_configuration() const override { return {ci::interface_configuration_type::NONE, {}}; }
  ci::return_type update(const rclcpp::Time &, const rclcpp::Duration &) override
  {
    for (const auto & s : todo)
      for (auto & c : command_interfaces_)
      {
        if (c.get_name() != key(s[0], s[1])) continue;
        std::string res;
        try { res = c.set_value(dec(s[2])) ? "OK" : "NO"; }
        catch (const std::exception &) { res = "THROW"; }
        emit({{"op", "SETC"}, {"n", s[0]}, {"q", s[1]}, {"v", s[2]}, {"res", res}});
      }
    return ci::return_type::OK;
  }
  void owned(std::set<std::string> & s) { for (auto & c : command_interfaces_) s.insert(c.get_name()); }
};
static std::set<std::string> own;
static void claims()
{
  std::set<std::string> now;
  for (auto c : live) c->owned(now);
  for (auto & [j, qs] : names.items())
    for (const std::string q : qs)
    {
      const auto k = key(j, q);
      if (own.count(k) && !now.count(k)) emit({{"op", "RELEASE"}, {"n", j}, {"q", q}, {"res", "OK"}});
      if (!own.count(k) && now.count(k)) emit({{"op", "CLAIM"}, {"n", j}, {"q", q}, {"res", "OK"}});
    }
  own = now;
}
static std::shared_ptr<rclcpp::Executor> executor;
static std::shared_ptr<controller_manager::ControllerManager> cm;
static int rate = 8;
static void cycle(int dn, const json & v, const json & sets)
{
  if (!cm) return;
  loop().run(
    [&]
    {
      claims();
      shim::vtime().now_ns += 1'000'000'000;
      const rclcpp::Time t(shim::vtime().now_ns.load(), RCL_STEADY_TIME);
      const rclcpp::Duration p(std::chrono::nanoseconds(dn == 0 ? 0 : 1'000'000'000 / dn));
      for (auto & [j, qs] : v.items())
        for (auto & [q, x] : qs.items()) G().sv[key(j, q)] = dec(x);
      cm->read(t, p);
      if (!v.empty()) emit({{"op", "READ"}, {"v", v}, {"res", "OK"}});
      todo = sets;
      enforcing = dn;
      bool thrown = false;
      try { cm->update(t, p); }
      catch (const std::exception &) { thrown = true; }
      enforced(thrown ? "THROW" : "ANY");
      todo = json::array();
      claims();
      if (thrown) return;
      json before = seen;
      seen = json::object();
      for (auto & [j, qs] : names.items()) seen[j] = json::object();
      exact = true;
      cm->write(t, p);
      evs.push_back({{"op", "WRITE"}, {"hw", seen}, {"ex", exact}, {"res", "OK"}, {"out", json::object()}});
    });
}
static void tick()
{
  if (++ticks > 2000) { std::cerr << "no end of the operation after 2000 control cycles\n"; _exit(98); }
  cycle(rate, json::object(), json::array());
}
template <class S> bool service(const std::string & name, std::function<void(typename S::Request &)> fill)
{
  auto req = std::make_shared<typename S::Request>();
  auto res = std::make_shared<typename S::Response>();
  fill(*req);
  in_service = true;
  bool ok = false;
  try { ok = shim::call<S>("/controller_manager/" + name, req, res) && res->ok; }
  catch (...) { ok = false; }
  in_service = false;
  return ok;
}

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  register_hw();
  shim::plugins<ci::ControllerInterface>()["lim_ctl"] = [] { return new Ctl; };
  shim::vtime().enabled = true;
  on_perform = []
  {
    enforced("ANY");
    emit({{"op", "PERF"}, {"res", "OK"}});
  };
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  while (std::getline(in, line))
  {
    if (line.empty()) continue;
    json o = json::parse(line);
    const std::string op = o["op"];
    evs = json::array();
    ticks = 0;
    if (op == "NEW")
    {
      executor.reset();
      cm.reset();
      shim::clear_overrides();
      G().sv.clear();
      own.clear();
      users.clear();
      forget(o);
      rate = o["rate"];
      const std::string me = "controller_manager";
      shim::set_override<int64_t>(me, "update_rate", rate);
      shim::set_override<bool>(me, "enforce_command_limits", o["imp"].get<bool>());
      shim::set_override<bool>(me, "overruns.print_warnings", false);
      for (auto & [c, l] : o["ctl"].items())
      {
        for (auto & i : l) users[c].push_back(key(i[0], i[1]));
        shim::set_override<std::string>(me, c + ".type", "lim_ctl");
      }
      executor = std::make_shared<rclcpp::executors::SingleThreadedExecutor>();
      cm = std::make_shared<controller_manager::ControllerManager>(executor, me, "", controller_manager::get_cm_node_options());
      std_msgs::msg::String msg;
      msg.data = describe(o);
      bool ok = true;
      try { ok = shim::deliver("/robot_description", msg); }
      catch (const std::exception &) { ok = false; }
      for (auto & [c, l] : users)
        ok = ok && service<srv::LoadController>("load_controller", [&](auto & q) { q.name = c; }) &&
             service<srv::ConfigureController>("configure_controller", [&](auto & q) { q.name = c; });
      evs = json::array();
      json e = o;
      e["res"] = ok ? "OK" : "NO";
      emit(e);
    }
    else if (op == "SWITCH")
    {
      service<srv::SwitchController>(
        "switch_controller",
        [&](auto & q)
        {
          q.activate_controllers = o["act"].get<std::vector<std::string>>();
          q.deactivate_controllers = o["dea"].get<std::vector<std::string>>();
          q.strictness = 2;
          q.activate_asap = o["asap"];
        });
      claims();
    }
    else if (op == "CYC") cycle(o["dn"], o["v"], o["set"]);
    else return 2;
    o["ev"] = evs;
    out << o.dump() << "\n";
    out.flush();
  }
  executor.reset();
  cm.reset();
  std::fflush(nullptr);
  _exit(0);
}
