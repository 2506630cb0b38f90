// Drives the real ControllerManager (services, topics, read/update/write) with fake hardware and
// fake controllers.  One JSON operation per line in, one JSON event per operation out.  The control
// loop runs on a thread of its own; while a service waits for it, the driver lets it run.
#include "cmloop.hpp"
#include "common.hpp"
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager/controller_manager.hpp"
#include "controller_manager_msgs/msg/controller_manager_activity.hpp"
#include "rclcpp/executors.hpp"
#include "std_msgs/msg/string.hpp"
using namespace drv;
namespace ci = controller_interface;
namespace srv = controller_manager_msgs::srv;

// ------------------------------------------------------------------ fake controllers
struct Live
{
  std::string n;
  std::function<json()> view;
};
static std::map<const void *, Live> & live() { static auto * m = new std::map<const void *, Live>; return *m; }
static std::map<std::string, json> ctls;   // descriptions from the script
static json tick_periods = json::object();
static double base_value = 0;
static const double NANV = std::numeric_limits<double>::quiet_NaN();
static int64_t ival(double v) { return std::isnan(v) ? 999999 : static_cast<int64_t>(std::llround(v)); }

template <class Base> class Ctl : public Base
{
public:
  static constexpr bool chain = std::is_same_v<Base, ci::ChainableControllerInterface>;
  std::string n;
  json d = json::object();
  ~Ctl() override { live().erase(this); }
  ci::CallbackReturn on_init() override
  {
    n = this->get_node()->get_name();
    if (ctls.count(n)) d = ctls[n];
    if constexpr (chain) this->reference_interfaces_.reserve(16);
    live()[this] = {n, [this] { return view(); }};
    const auto o = outcome(n, "init");
    log_call({{"c", n}, {"cb", "init"}, {"o", o}, {"st", "unconfigured"}, {"ph", phase}});
    return cbret(o);
  }
  json view()
  {
    json l = json::array(), sl = json::array();
    for (const auto & i : this->command_interfaces_) l.push_back(i.get_name());
    for (const auto & i : this->state_interfaces_) sl.push_back(i.get_name());
    return {{"st", this->get_lifecycle_state().label()}, {"id", this->get_lifecycle_id()}, {"l", l}, {"sl", sl}, {"chd", this->is_in_chained_mode()}};
  }
  ci::InterfaceConfiguration config(const char * names, const char * type, const char * pat) const
  {
    using T = ci::interface_configuration_type;
    const std::string t = d.value(type, "I");
    ci::InterfaceConfiguration c;
    c.type = t == "ALL" ? T::ALL : t == "NONE" ? T::NONE : t == "BE" ? T::INDIVIDUAL_BEST_EFFORT : t == "RX" ? T::REGEX : T::INDIVIDUAL;
    if (t == "I" || t == "BE") c.names = d.value(names, std::vector<std::string>{});
    if (t == "RX") c.names = d.value(pat, std::vector<std::string>{});
    return c;
  }
  ci::InterfaceConfiguration command_interface_configuration() const override { return config("cmd", "ct", "pat"); }
  ci::InterfaceConfiguration state_interface_configuration() const override { return config("st", "stt", "spat"); }
  ci::CallbackReturn life(const char * cb, const rclcpp_lifecycle::State & prev)
  {
    const auto o = outcome(n, cb);
    log_call({{"c", n}, {"cb", cb}, {"o", o}, {"st", prev.label()}, {"ph", phase}});
    if (mid && in_service && !is_rt) tick();
    return cbret(o);
  }
  ci::CallbackReturn on_configure(const rclcpp_lifecycle::State & s) override { return life("configure", s); }
  ci::CallbackReturn on_cleanup(const rclcpp_lifecycle::State & s) override { return life("cleanup", s); }
  ci::CallbackReturn on_activate(const rclcpp_lifecycle::State & s) override { return life("activate", s); }
  ci::CallbackReturn on_deactivate(const rclcpp_lifecycle::State & s) override { return life("deactivate", s); }
  ci::CallbackReturn on_shutdown(const rclcpp_lifecycle::State & s) override { return life("shutdown", s); }
  ci::CallbackReturn on_error(const rclcpp_lifecycle::State & s) override { return life("error", s); }
  ci::return_type work(const rclcpp::Duration & period, std::vector<double> refs)
  {
    if (quiet)
    {
      if (!tick_periods.contains(n)) tick_periods[n] = us(period);
      const bool fails = stall == false && outcome(n, "tick") == "E";
      return fails ? ci::return_type::ERROR : ci::return_type::OK;
    }
    const auto o = outcome(n, "update");
    json in = json::array(), rs = json::array();
    for (double v : refs) in.push_back(ival(v));
    for (auto & s : this->state_interfaces_)
    {
      const auto name = s.get_name();
      if (!ctls.count(name.substr(0, name.find('/')))) continue;
      const auto v = s.get_optional();
      rs.push_back({{"i", name}, {"v", v ? ival(*v) : 888888}});
    }
    const bool chd = this->is_in_chained_mode();
    const double out = chd && !refs.empty() ? refs[0] + 1 : base_value + d.value("k", 0);
    bool wok = true;
    json loans = json::array();
    if (o == "OK")
      for (auto & c : this->command_interfaces_)
      {
        loans.push_back(c.get_name());
        if (!c.set_value(out)) wok = false;
      }
    log_call({{"c", n}, {"cb", "update"}, {"o", o}, {"st", this->get_lifecycle_state().label()}, {"ph", phase}, {"p", us(period)},
              {"chd", chd}, {"in", in}, {"rs", rs}, {"wv", ival(out)}, {"l", loans}, {"wok", wok}});
    if (o == "OK") export_value(out);
    maybe_throw(o);
    return o == "E" ? ci::return_type::ERROR : ci::return_type::OK;
  }
  virtual void export_value(double) {}
};
struct PlainCtl : Ctl<ci::ControllerInterface>
{
  ci::return_type update(const rclcpp::Time &, const rclcpp::Duration & p) override { return work(p, {}); }
};
// exported values stay valid after their controller has gone
static std::vector<std::vector<double>> & graveyard() { static auto * g = new std::vector<std::vector<double>>; return *g; }
struct ChainCtl : Ctl<ci::ChainableControllerInterface>
{
  ~ChainCtl() override
  {
    graveyard().push_back(std::move(reference_interfaces_));
    graveyard().push_back(std::move(exps));
  }
  std::vector<double> exps = std::vector<double>(16, NANV);
  std::vector<hardware_interface::CommandInterface> on_export_reference_interfaces() override
  {
    const auto o = outcome(n, "export");
    if (o == "X") throw std::runtime_error("injected");
    std::vector<hardware_interface::CommandInterface> v;
    if (o == "N") { reference_interfaces_.clear(); return v; }
    const auto names = d.value("ref", std::vector<std::string>{});
    reference_interfaces_.assign(names.size(), NANV);
    for (size_t i = 0; i < names.size(); ++i)
      v.emplace_back(n, names[i].substr(n.size() + 1), &reference_interfaces_[i]);
    return v;
  }
  std::vector<hardware_interface::StateInterface> on_export_state_interfaces() override
  {
    std::vector<hardware_interface::StateInterface> v;
    if (outcome(n, "export") == "N") return v;
    const auto names = d.value("exp", std::vector<std::string>{});
    exps.assign(16, NANV);
    for (size_t i = 0; i < names.size(); ++i)
      v.emplace_back(n, names[i].substr(n.size() + 1), &exps[i]);
    return v;
  }
  void export_value(double v) override
  {
    for (auto & i : ordered_exported_state_interfaces_) (void)i->set_value(v);
  }
  bool on_set_chained_mode(bool m) override
  {
    const auto o = outcome(n, "chain");
    log_call({{"c", n}, {"cb", "chain"}, {"o", o}, {"st", get_lifecycle_state().label()}, {"m", m}, {"ph", phase}});
    return o == "OK";
  }
  ci::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override
  {
    subs = true;
    return ci::return_type::OK;
  }
  bool subs = false;
  ci::return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration & p) override
  {
    const bool s = subs;
    subs = false;
    if (!quiet && s == is_in_chained_mode())
      log_call({{"c", n}, {"cb", "subs"}, {"o", "OK"}, {"st", ""}, {"ph", phase}});
    return work(p, reference_interfaces_);
  }
};

// ------------------------------------------------------------------ the system
struct CM : controller_manager::ControllerManager
{
  using controller_manager::ControllerManager::ControllerManager;
};
static std::shared_ptr<rclcpp::Executor> executor;
static std::shared_ptr<CM> cm;
static int cmrate = 100;
static bool thrown = false;
static json last_pub;
static int npub = 0;

static void run_pending(const std::string & only = "")
{
  (void)only;
  std::vector<const void *> ord = shim::manual_async().order;
  for (auto h : ord)
  {
    auto it = shim::manual_async().pending.find(h);
    if (it != shim::manual_async().pending.end()) it->second();
  }
}
static void tick()
{
  if (!cm) return;
  if (++ticks > 2000) { std::cerr << "no end of the operation after 2000 control cycles\n"; _exit(98); }
  loop().run(
    []
    {
      const char * p = phase;
      phase = "t";
      quiet = true;
      const rclcpp::Time t(shim::vtime().now_ns.load(), RCL_STEADY_TIME);
      try { cm->update(t, rclcpp::Duration(std::chrono::nanoseconds(1'000'000'000 / cmrate))); }
      catch (...) { thrown = true; }
      run_pending();
      quiet = false;
      phase = p;
    });
}

template <class S> bool service(const std::string & name, std::function<void(typename S::Request &)> fill, typename S::Response & out)
{
  auto req = std::make_shared<typename S::Request>();
  auto res = std::make_shared<typename S::Response>();
  fill(*req);
  in_service = true;
  bool ok = false;
  try { ok = shim::call<S>("/controller_manager/" + name, req, res); }
  catch (...) { in_service = false; thrown = true; return false; }
  in_service = false;
  out = *res;
  return ok;
}
template <class S> json named(const std::string & name, const std::string & c)
{
  typename S::Response r;
  if (!service<S>(name, [&](auto & q) { q.name = c; }, r)) return thrown ? json("THROW") : json("NOSRV");
  return r.ok ? "OK" : "ERROR";
}
static json jlist(const std::vector<std::string> & v) { return v; }

static json project()
{
  json s = {{"init", false}, {"comps", json::object()}, {"hwi", json::object()}, {"acmd", json::array()}, {"ast", json::array()},
            {"cmd", json::array()}, {"st", json::array()}, {"claimed", json::array()}, {"order", json::array()},
            {"ctl", json::object()}, {"own", json::object()}, {"incons", false}};
  bool incons = false;
  const bool was_stall = stall;
  stall = true;   // listing must not need the control loop
  {
    srv::ListControllers::Response r;
    if (service<srv::ListControllers>("list_controllers", [](auto &) {}, r))
    {
      s["init"] = true;
      for (const auto & c : r.controller)
      {
        s["order"].push_back(c.name);
        std::set<std::string> conn;
        for (const auto & x : c.chain_connections)
          for (const auto & i : x.reference_interfaces)
            conn.insert(x.name + "/" + i);
        if (s["ctl"].contains(c.name)) incons = true;
        s["ctl"][c.name] = {{"st", c.state}, {"ty", c.type}, {"as", c.is_async}, {"rate", c.update_rate}, {"cl", jlist(c.claimed_interfaces)},
                            {"rc", jlist(c.required_command_interfaces)}, {"rs", jlist(c.required_state_interfaces)}, {"able", c.is_chainable},
                            {"chd", c.is_chained}, {"conn", conn}, {"refs", keyset(c.reference_interfaces)}, {"exps", keyset(c.exported_state_interfaces)}};
      }
    }
  }
  {
    srv::ListHardwareComponents::Response r;
    if (service<srv::ListHardwareComponents>("list_hardware_components", [](auto &) {}, r))
      for (const auto & c : r.component)
      {
        s["comps"][c.name] = c.state.label;
        if (state_by_label(c.state.label).id() != c.state.id) incons = true;
        json av = json::array(), cl = json::array(), as = json::array();
        for (const auto & i : c.command_interfaces) { if (i.is_available) av.push_back(i.name); if (i.is_claimed) cl.push_back(i.name); }
        for (const auto & i : c.state_interfaces) if (i.is_available) as.push_back(i.name);
        s["hwi"][c.name] = {{"av", av}, {"cl", cl}, {"as", as}};
      }
  }
  {
    srv::ListHardwareInterfaces::Response r;
    if (service<srv::ListHardwareInterfaces>("list_hardware_interfaces", [](auto &) {}, r))
    {
      for (const auto & i : r.command_interfaces)
      {
        s["cmd"].push_back(i.name);
        if (i.is_available) s["acmd"].push_back(i.name);
        if (i.is_claimed) s["claimed"].push_back(i.name);
      }
      for (const auto & i : r.state_interfaces)
      {
        s["st"].push_back(i.name);
        if (i.is_available) s["ast"].push_back(i.name);
      }
    }
  }
  stall = was_stall;
  std::map<std::string, int> count;
  for (auto & [p, l] : live()) count[l.n]++;
  for (auto & [p, l] : live())
  {
    json v = l.view();
    v["n"] = count[l.n];
    s["own"][l.n] = v;
  }
  for (auto & [n, c] : s["comps"].items())
  {   // the two listings of hardware must agree with each other
    const auto acmd = s["acmd"].get<std::set<std::string>>(), ast = s["ast"].get<std::set<std::string>>(), claimed = s["claimed"].get<std::set<std::string>>();
    for (const auto & i : s["hwi"][n]["av"]) if (!acmd.count(i)) incons = true;
    for (const auto & i : s["hwi"][n]["cl"]) if (!claimed.count(i)) incons = true;
    for (const auto & i : s["hwi"][n]["as"]) if (!ast.count(i)) incons = true;
  }
  s["incons"] = incons;
  s["pub"] = last_pub;
  return s;
}

static json reset(const json & o)
{
  shim::manual_async().pending.clear();
  shim::manual_async().order.clear();
  shim::manual_async().abandon = true;
  executor.reset();
  cm.reset();
  shim::manual_async().abandon = false;
  live().clear();
  shim::clear_overrides();
  G().comp_opt.clear();
  ctls.clear();
  last_pub = {{"ctl", json::object()}, {"hw", json::object()}, {"none", true}};
  npub = 0;
  shim::vtime().now_ns = 1'000'000'000;
  cmrate = o.value("cmrate", 100);
  const json p = o.value("params", json::object());
  const std::string me = "controller_manager";
  shim::set_override<int64_t>(me, "update_rate", cmrate);
  shim::set_override<bool>(me, "enforce_command_limits", p.value("limits", false));
  shim::set_override<bool>(me, "hardware_components_initial_state.shutdown_on_initial_state_failure", p.value("shut", false));
  shim::set_override<std::vector<std::string>>(me, "hardware_components_initial_state.unconfigured", p.value("unconf", std::vector<std::string>{}));
  shim::set_override<std::vector<std::string>>(me, "hardware_components_initial_state.inactive", p.value("inact", std::vector<std::string>{}));
  shim::set_override<std::string>(me, "defaults.switch_controller.strictness", p.value("strict", "strict"));
  shim::set_override<bool>(me, "defaults.allow_controller_activation_with_inactive_hardware", p.value("allow", false));
  shim::set_override<bool>(me, "defaults.deactivate_controllers_on_hardware_self_deactivate", p.value("retn", true));
  shim::set_override<bool>(me, "overruns.print_warnings", false);
  for (auto & [n, d] : o["ctls"].items())
  {
    ctls[n] = d;
    const std::string t = d.value("type", "plain");
    if (t != "none") shim::set_override<std::string>(me, n + ".type", t);
    const auto fb = d.value("fb", std::vector<std::string>{});
    if (!fb.empty()) shim::set_override<std::vector<std::string>>(me, n + ".fallback_controllers", fb);
    if (d.value("rate", 0) != 0) shim::set_override<int64_t>(n, "update_rate", d["rate"].get<int64_t>());
    if (d.value("as", false)) shim::set_override<bool>(n, "is_async", true);
  }
  executor = std::make_shared<rclcpp::executors::SingleThreadedExecutor>();
  auto options = controller_manager::get_cm_node_options();
  cm = std::make_shared<CM>(executor, "controller_manager", "", options);
  return "OK";
}

static json step(const json & o)
{
  const std::string op = o["op"];
  if (op == "RESET") return reset(o);
  if (op == "START")
  {
    json comps = o["comps"];
    for (auto & c : comps) G().comp_opt[c["n"]] = c.value("opt", json::object());
    std_msgs::msg::String msg;
    msg.data = urdf(comps, o.value("lim", json::object()));
    const std::string mut = o.value("mut", "");
    if (mut == "garbage") msg.data = "<robot name=\"r\"><ros2_control";
    if (mut == "empty") msg.data = "";
    try { if (!shim::deliver("/robot_description", msg)) return "NOSUB"; }
    catch (const std::exception &) { return "THROW"; }
    return "OK";
  }
  if (op == "LOADC") return named<srv::LoadController>("load_controller", o["c"]);
  if (op == "CONF") return named<srv::ConfigureController>("configure_controller", o["c"]);
  if (op == "CLEAN") return named<srv::CleanupController>("cleanup_controller", o["c"]);
  if (op == "UNLOAD") return named<srv::UnloadController>("unload_controller", o["c"]);
  if (op == "RELOAD")
  {
    srv::ReloadControllerLibraries::Response r;
    if (!service<srv::ReloadControllerLibraries>("reload_controller_libraries", [&](auto & q) { q.force_kill = o.value("force", false); }, r))
      return thrown ? "THROW" : "NOSRV";
    return r.ok ? "OK" : "ERROR";
  }
  if (op == "SWITCH")
  {
    srv::SwitchController::Response r;
    stall = o.value("stall", false);
    mid = o.value("mid", false);
    const bool ok = service<srv::SwitchController>(
      "switch_controller",
      [&](auto & q)
      {
        q.activate_controllers = o["act"].get<std::vector<std::string>>();
        q.deactivate_controllers = o["dea"].get<std::vector<std::string>>();
        q.strictness = o["strict"];
        q.activate_asap = o.value("asap", false);
        const int ms = stall ? 20 : o.value("to", 0);
        q.timeout.sec = ms / 1000;
        q.timeout.nanosec = static_cast<uint32_t>(ms % 1000) * 1000000u;
      },
      r);
    stall = mid = false;
    if (!ok) return thrown ? "THROW" : "NOSRV";
    return r.ok ? "OK" : "ERROR";
  }
  if (op == "SETHW")
  {
    srv::SetHardwareComponentState::Response r;
    if (!service<srv::SetHardwareComponentState>(
          "set_hardware_component_state",
          [&](auto & q)
          {
            q.name = o["c"];
            q.target_state.id = state_by_label(o["to"]).id();
            q.target_state.label = o["to"];
          },
          r))
      return thrown ? "THROW" : "NOSRV";
    return r.ok ? "OK" : "ERROR";
  }
  if (op == "CYCLE")
  {
    shim::vtime().now_ns += o["dt"].get<int64_t>() * 1000;
    base_value = o.value("v", 0);
    bool bad = false;
    loop().run(
      [&]
      {
        const rclcpp::Time t(shim::vtime().now_ns.load(), RCL_STEADY_TIME);
        const rclcpp::Duration p(std::chrono::nanoseconds(o["p"].get<int64_t>() * 1000));
        try
        {
          phase = "r";
          cm->read(t, p);
          phase = "u";
          bad = cm->update(t, p) != ci::return_type::OK;
          phase = "w";
          cm->write(t, p);
        }
        catch (...) { thrown = true; }
        phase = "s";
      });
    return thrown ? "THROW" : bad ? "ERROR" : "OK";
  }
  if (op == "RUN")
  {
    base_value = o.value("v", 0);
    phase = "a";
    run_pending();
    phase = "s";
    return "OK";
  }
  throw std::runtime_error("unknown op " + op);
}

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  register_fakes();
  shim::plugins<ci::ControllerInterface>()["plain"] = [] { return new PlainCtl; };
  shim::plugins<ci::ChainableControllerInterface>()["chain"] = [] { return new ChainCtl; };
  shim::vtime().enabled = true;
  shim::manual_async().enabled = true;
  G().log_cmd = true;
  G().ints = true;
  shim::tap<controller_manager_msgs::msg::ControllerManagerActivity>(
    "/controller_manager/activity",
    [](const auto & m)
    {
      npub++;
      last_pub = {{"ctl", json::object()}, {"hw", json::object()}, {"none", false}};
      for (auto & c : m.controllers) last_pub["ctl"][c.name] = c.state.label;
      for (auto & c : m.hardware_components) last_pub["hw"][c.name] = c.state.label;
    });
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  while (std::getline(in, line))
  {
    if (line.empty()) continue;
    json o = json::parse(line);
    G().calls = json::array();
    G().out.clear();
    if (o.contains("out"))
      for (auto & [k, v] : o["out"].items()) G().out[k] = v;
    thrown = false;
    ticks = 0;
    tick_periods = json::object();
    npub = 0;
    json ev = o;
    ev["res"] = step(o);
    const bool th = thrown;
    if (o["op"] != "CYCLE" && o["op"] != "RUN" && o["op"] != "RESET") tick();
    G().out.clear();
    ev["thrown"] = th;
    ev["npub"] = npub;
    ev["calls"] = G().calls;
    ev["tick"] = tick_periods;
    ev["s"] = project();
    ev["now"] = shim::vtime().now_ns.load() / 1000;
    if (!ev.contains("out")) ev["out"] = json::object();
    out << ev.dump() << "\n";
    out.flush();
  }
  shim::manual_async().abandon = true;
  cm.reset();
  executor.reset();
  std::fflush(nullptr);
  _exit(0);
}
