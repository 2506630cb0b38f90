#include "rclcpp/node.hpp"
#include "rclcpp_lifecycle/lifecycle_node.hpp"

namespace shim
{
VirtualTime & vtime() { static VirtualTime v; return v; }
std::atomic<SchedHook> sched_hook{nullptr};
int log_threshold()
{
  static int t = [] {
    const char * e = getenv("SHIM_LOG");
    return e ? atoi(e) : 1000;
  }();
  return t;
}
void log(int level, const char * name, const char * fmt, ...)
{
  // the text is always formatted (a bad argument must surface), but printed only on request
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (level >= log_threshold()) fprintf(stderr, "[%d] [%s] %s\n", level, name, buf);
}
Registry & registry() { static Registry * r = new Registry; return *r; }
std::string expand(const std::string & name, const rclcpp::node_interfaces::NodeBaseInterface & b)
{
  if (name.empty()) return name;
  if (name[0] == '/') return name;
  if (name[0] == '~') return b.fq + name.substr(1);
  return b.nspace == "/" ? "/" + name : b.nspace + "/" + name;
}
}  // namespace shim

namespace rclcpp
{
ServiceBase::~ServiceBase() = default;
PublisherBase::~PublisherBase() = default;
SubscriptionBase::~SubscriptionBase() = default;
Executor::~Executor() = default;
std::function<void(Executor &)> & Executor::on_spin() { static std::function<void(Executor &)> f; return f; }
void Executor::spin()
{
  if (on_spin()) { on_spin()(*this); return; }
  while (rclcpp::ok() && !canceled_) std::this_thread::sleep_for(std::chrono::milliseconds(1));
}
namespace contexts
{
Context::SharedPtr get_global_default_context()
{
  static auto * c = new std::shared_ptr<Context>(std::make_shared<Context>());
  return *c;
}
}  // namespace contexts

NodeCommon::NodeCommon(const std::string & name, const std::string & ns, const NodeOptions & options)
: opts_(options), base_(std::make_shared<node_interfaces::NodeBaseInterface>(name, ns)),
  clk_(std::make_shared<node_interfaces::NodeClockInterface>()),
  log_(std::make_shared<node_interfaces::NodeLoggingInterface>()),
  par_(std::make_shared<node_interfaces::NodeParametersInterface>())
{
  if (name.empty()) throw exceptions::InvalidNodeNameError("node name must not be empty");
  for (char c : name)
    if (!(isalnum(static_cast<unsigned char>(c)) || c == '_'))
      throw exceptions::InvalidNodeNameError("Invalid node name: node name must not contain characters other than alphanumerics or '_': " + name);
  log_->l = Logger(name);
  par_->allow_undeclared = options.allow_undeclared_parameters();
  {
    std::lock_guard<std::recursive_mutex> g(shim::registry().m);
    for (auto & key : {std::string("*"), name})
      for (auto & [k, v] : shim::registry().overrides[key]) par_->overrides[k] = v;
    shim::registry().params[base_->fq] = par_;
  }
  for (auto & p : options.parameter_overrides()) par_->overrides[p.get_name()] = p.get_parameter_value();
  if (options.automatically_declare_parameters_from_overrides())
    for (auto & [k, v] : par_->overrides)
      if (!par_->has_parameter(k)) par_->declare_parameter(k, v);
  if (!par_->has_parameter("use_sim_time")) par_->declare_parameter("use_sim_time", ParameterValue(false));
}
NodeCommon::~NodeCommon() = default;

namespace node_interfaces
{
const ParameterValue & NodeParametersInterface::declare_parameter(
  const std::string & n, const ParameterValue & def, const rcl_interfaces::msg::ParameterDescriptor & d, bool ign)
{
  std::lock_guard<std::recursive_mutex> g(m);
  if (n.empty()) throw exceptions::InvalidParametersException("parameter name must not be empty");
  if (p.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
  auto it = overrides.find(n);
  ParameterValue v = (!ign && it != overrides.end()) ? it->second : def;
  if (!d.dynamic_typing && def.get_type() != PARAMETER_NOT_SET && v.get_type() != def.get_type())
    throw exceptions::InvalidParameterTypeException(n, "Wrong parameter type, parameter {" + n + "}");
  static_type[n] = !d.dynamic_typing;
  return p[n] = v;
}
const ParameterValue & NodeParametersInterface::declare_parameter(
  const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & d, bool ign)
{
  std::lock_guard<std::recursive_mutex> g(m);
  if (t == PARAMETER_NOT_SET) throw std::invalid_argument("declare_parameter(): the provided parameter type cannot be PARAMETER_NOT_SET");
  if (p.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
  auto it = overrides.find(n);
  if (ign || it == overrides.end()) { static_type[n] = !d.dynamic_typing; return p[n] = ParameterValue(); }
  if (it->second.get_type() != t) throw exceptions::InvalidParameterTypeException(n, "Wrong parameter type, parameter {" + n + "}");
  static_type[n] = !d.dynamic_typing;
  return p[n] = it->second;
}
Parameter NodeParametersInterface::get_parameter(const std::string & n) const
{
  std::lock_guard<std::recursive_mutex> g(m);
  auto it = p.find(n);
  if (it == p.end())
  {
    if (allow_undeclared) return Parameter(n);
    throw exceptions::ParameterNotDeclaredException("parameter '" + n + "' has not been declared");
  }
  if (it->second.get_type() == PARAMETER_NOT_SET && !allow_undeclared)
    throw exceptions::ParameterUninitializedException(n);
  return Parameter(n, it->second);
}
bool NodeParametersInterface::get_parameter(const std::string & n, Parameter & out) const
{
  std::lock_guard<std::recursive_mutex> g(m);
  auto it = p.find(n);
  if (it == p.end() || it->second.get_type() == PARAMETER_NOT_SET) return false;
  out = Parameter(n, it->second);
  return true;
}
rcl_interfaces::msg::SetParametersResult NodeParametersInterface::set_one(const Parameter & x)
{
  std::lock_guard<std::recursive_mutex> g(m);
  rcl_interfaces::msg::SetParametersResult r;
  r.successful = true;
  if (static_type.count(x.get_name()) && static_type[x.get_name()] && p[x.get_name()].get_type() != PARAMETER_NOT_SET &&
    x.get_type() != p[x.get_name()].get_type())
  { r.successful = false; r.reason = "type"; return r; }
  for (auto & w : cbs)
    if (auto h = w.lock())
    {
      auto q = h->callback({x});
      if (!q.successful) return q;
    }
  p[x.get_name()] = x.get_parameter_value();
  return r;
}
}  // namespace node_interfaces
}  // namespace rclcpp

namespace rclcpp_lifecycle
{
using S = lifecycle_msgs::msg::State;
static const char * prim(uint8_t id)
{
  switch (id)
  {
    case S::PRIMARY_STATE_UNCONFIGURED: return "unconfigured";
    case S::PRIMARY_STATE_INACTIVE: return "inactive";
    case S::PRIMARY_STATE_ACTIVE: return "active";
    case S::PRIMARY_STATE_FINALIZED: return "finalized";
    default: return "unknown";
  }
}
const State & LifecycleNode::run(
  uint8_t from, uint8_t via, const char * vlabel, uint8_t ok, uint8_t fail, Cb & cb,
  CallbackReturn (LifecycleNode::*dflt)(const State &), CallbackReturn & r)
{
  r = CallbackReturn::ERROR;
  if (cur_.id() != from)
  {
    shim::log(30, get_name(), "No transition matching '%s' found for current state %s", vlabel, cur_.label().c_str());
    return cur_;
  }
  const State initial = cur_;
  auto exec = [&](Cb & f, CallbackReturn (LifecycleNode::*d)(const State &)) {
    try { return f ? f(initial) : (this->*d)(initial); }
    catch (const std::exception & e)
    {
      shim::log(40, get_name(), "Caught exception in callback for transition %s: %s", vlabel, e.what());
      return CallbackReturn::ERROR;
    }
  };
  cur_ = State(via, vlabel);
  r = exec(cb, dflt);
  if (r == CallbackReturn::SUCCESS) cur_ = State(ok, prim(ok));
  else if (r == CallbackReturn::FAILURE) cur_ = State(fail, prim(fail));
  else
  {
    cur_ = State(S::TRANSITION_STATE_ERRORPROCESSING, "errorprocessing");
    const auto e = exec(err_, &LifecycleNode::d_err);
    const uint8_t t = e == CallbackReturn::SUCCESS ? S::PRIMARY_STATE_UNCONFIGURED : S::PRIMARY_STATE_FINALIZED;
    cur_ = State(t, prim(t));
  }
  return cur_;
}
const State & LifecycleNode::configure(CallbackReturn & r)
{ return run(S::PRIMARY_STATE_UNCONFIGURED, S::TRANSITION_STATE_CONFIGURING, "configuring", S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_UNCONFIGURED, cfg_, &LifecycleNode::d_cfg, r); }
const State & LifecycleNode::cleanup(CallbackReturn & r)
{ return run(S::PRIMARY_STATE_INACTIVE, S::TRANSITION_STATE_CLEANINGUP, "cleaningup", S::PRIMARY_STATE_UNCONFIGURED, S::PRIMARY_STATE_INACTIVE, cln_, &LifecycleNode::d_cln, r); }
const State & LifecycleNode::activate(CallbackReturn & r)
{ return run(S::PRIMARY_STATE_INACTIVE, S::TRANSITION_STATE_ACTIVATING, "activating", S::PRIMARY_STATE_ACTIVE, S::PRIMARY_STATE_INACTIVE, act_, &LifecycleNode::d_act, r); }
const State & LifecycleNode::deactivate(CallbackReturn & r)
{ return run(S::PRIMARY_STATE_ACTIVE, S::TRANSITION_STATE_DEACTIVATING, "deactivating", S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_ACTIVE, dea_, &LifecycleNode::d_dea, r); }
const State & LifecycleNode::shutdown(CallbackReturn & r)
{
  const auto id = cur_.id();
  if (id != S::PRIMARY_STATE_UNCONFIGURED && id != S::PRIMARY_STATE_INACTIVE && id != S::PRIMARY_STATE_ACTIVE)
  { r = CallbackReturn::ERROR; return cur_; }
  return run(id, S::TRANSITION_STATE_SHUTTINGDOWN, "shuttingdown", S::PRIMARY_STATE_FINALIZED, S::PRIMARY_STATE_FINALIZED, shd_, &LifecycleNode::d_shd, r);
}
const State & LifecycleNode::trigger_transition(uint8_t id, CallbackReturn & r)
{
  switch (id)
  {
    case 1: return configure(r);
    case 2: return cleanup(r);
    case 3: return activate(r);
    case 4: return deactivate(r);
    case 5: case 6: case 7: return shutdown(r);
    default: r = CallbackReturn::ERROR; return cur_;
  }
}
}  // namespace rclcpp_lifecycle
