#pragma once
#include "rclcpp/clock.hpp"
#include "rclcpp/node.hpp"
#include "rclcpp/logging.hpp"
#include "realtime_tools/realtime_helpers.hpp"
namespace shim
{
// When set, no worker thread is started: a triggered cycle waits until the driver runs it.
struct ManualAsync
{
  std::atomic<bool> enabled{false};
  std::atomic<bool> abandon{false};   // the driver destroys everything: drop triggered cycles
  std::recursive_mutex m;
  std::map<const void *, std::function<bool()>> pending;   // handler -> "run one cycle"
  std::vector<const void *> order;                         // handlers in creation order
};
inline ManualAsync & manual_async() { static ManualAsync * x = new ManualAsync; return *x; }
}  // namespace shim
namespace realtime_tools
{
class AsyncSchedulingPolicy
{
public:
  enum Value : int8_t { UNKNOWN = -1, SYNCHRONIZED, DETACHED };
  AsyncSchedulingPolicy() = default;
  constexpr AsyncSchedulingPolicy(Value v) : v_(v) {}  // NOLINT
  explicit AsyncSchedulingPolicy(const std::string & s) : v_(s == "synchronized" ? SYNCHRONIZED : s == "detached" ? DETACHED : UNKNOWN) {}
  operator Value() const { return v_; }
  explicit operator bool() const = delete;
  constexpr bool operator==(AsyncSchedulingPolicy o) const { return v_ == o.v_; }
  constexpr bool operator!=(AsyncSchedulingPolicy o) const { return v_ != o.v_; }
  constexpr bool operator==(Value o) const { return v_ == o; }
  constexpr bool operator!=(Value o) const { return v_ != o; }
  std::string to_string() const { return v_ == SYNCHRONIZED ? "synchronized" : v_ == DETACHED ? "detached" : "unknown"; }
private:
  Value v_ = UNKNOWN;
};
struct AsyncFunctionHandlerParams
{
  bool validate() const
  {
    if (thread_priority < 0 || thread_priority > 99) return false;
    if (scheduling_policy == AsyncSchedulingPolicy::UNKNOWN) return false;
    return true;
  }
  template <class NodeT> void initialize(NodeT & node, const std::string & prefix)
  {
    auto decl = [&](const std::string & n, auto dflt) {
      using T = decltype(dflt);
      if (!node->has_parameter(prefix + n)) node->template declare_parameter<T>(prefix + n, dflt);
      return node->get_parameter(prefix + n).template get_value<T>();
    };
    thread_priority = static_cast<int>(decl("thread_priority", static_cast<int64_t>(thread_priority)));
    const auto cpus = decl("cpu_affinity", std::vector<int64_t>{});
    cpu_affinity_cores.assign(cpus.begin(), cpus.end());
    scheduling_policy = AsyncSchedulingPolicy(decl("scheduling_policy", scheduling_policy.to_string()));
    if (scheduling_policy == AsyncSchedulingPolicy::DETACHED) exec_rate = static_cast<unsigned>(decl("execution_rate", static_cast<int64_t>(exec_rate)));
    wait_until_initial_trigger = decl("wait_until_initial_trigger", wait_until_initial_trigger);
    print_warnings = decl("print_warnings", print_warnings);
  }
  int thread_priority = 50;
  std::vector<int> cpu_affinity_cores = {};
  AsyncSchedulingPolicy scheduling_policy = AsyncSchedulingPolicy(AsyncSchedulingPolicy::SYNCHRONIZED);
  unsigned int exec_rate = 0u;
  rclcpp::Clock::SharedPtr clock = nullptr;
  rclcpp::Logger logger = rclcpp::get_logger("AsyncFunctionHandler");
  std::function<bool()> trigger_predicate = []() { return true; };
  bool wait_until_initial_trigger = true;
  bool print_warnings = true;
};
template <class T> class AsyncFunctionHandler
{
public:
  using Callback = std::function<T(const rclcpp::Time &, const rclcpp::Duration &)>;
  AsyncFunctionHandler() = default;
  ~AsyncFunctionHandler() { stop_thread(); forget(); }
  void init(Callback cb, const AsyncFunctionHandlerParams & p)
  {
    if (!cb) throw std::runtime_error("AsyncFunctionHandler: parsed function to call asynchronously is not valid!");
    if (running_) throw std::runtime_error("AsyncFunctionHandler: Cannot reinitialize while the thread is already running!");
    if (!p.validate()) throw std::runtime_error("AsyncFunctionHandler: The parsed AsyncFunctionHandlerParams is not valid!");
    if (p.scheduling_policy == AsyncSchedulingPolicy::DETACHED && p.exec_rate == 0u)
      throw std::runtime_error("AsyncFunctionHandler: exec_rate must be positive when detached");
    cb_ = cb; par_ = p; pred_ = p.trigger_predicate;
  }
  void init(Callback cb, std::function<bool()> pred, const AsyncFunctionHandlerParams & p) { init(cb, p); pred_ = pred; }
  void init(Callback cb, int prio = 50) { AsyncFunctionHandlerParams p; p.thread_priority = prio; init(cb, p); }
  bool is_initialized() const { return static_cast<bool>(cb_); }
  bool is_running() const { return running_; }
  bool is_stopped() const { return stop_; }
  bool is_trigger_cycle_in_progress() const { return in_progress_; }
  void start_thread()
  {
    if (!is_initialized()) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (running_) return;
    reset_variables();
    running_ = true;
    manual_ = shim::manual_async().enabled;
    if (manual_)
    {
      auto & ma = shim::manual_async();
      std::lock_guard<std::recursive_mutex> g(ma.m);
      ma.order.push_back(this);
      ma.pending[this] = [this]() { if (!in_progress_ || stop_) return false; execute(); return true; };
      return;
    }
    th_ = std::thread([this]() {
      for (;;)
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [this] { return in_progress_ || stop_; });
        if (stop_) { in_progress_ = false; break; }
        l.unlock();
        execute();
        l.lock();
        l.unlock();
        done_.notify_all();
      }
      done_.notify_all();
    });
  }
  std::pair<bool, T> trigger_async_callback(const rclcpp::Time & t, const rclcpp::Duration & p)
  {
    if (!is_initialized()) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (exc_) { auto e = exc_; std::rethrow_exception(e); }
    if (!running_) throw std::runtime_error("AsyncFunctionHandler: need to start the async callback thread first before triggering!");
    bool ok = false;
    {
      std::unique_lock<std::mutex> l(m_, std::try_to_lock);
      if (l.owns_lock() && !in_progress_ && pred_())
      {
        paused_ = false;
        t_ = t; p_ = p; in_progress_ = true; ok = true;
      }
    }
    const T r = ret_;
    if (ok) cv_.notify_one();
    return {ok, r};
  }
  T get_last_return_value() const { return ret_; }
  const rclcpp::Time & get_current_callback_time() const { return t_; }
  const rclcpp::Duration & get_current_callback_period() const { return p_; }
  std::chrono::nanoseconds get_last_execution_time() const { return last_; }
  const AsyncFunctionHandlerParams & get_params() const { return par_; }
  void reset_variables()
  {
    std::lock_guard<std::mutex> g(m_);
    stop_ = false; in_progress_ = false; paused_ = false;
    t_ = rclcpp::Time(0, 0, t_.get_clock_type()); p_ = rclcpp::Duration(0, 0);
    last_ = std::chrono::nanoseconds(0); ret_ = T(); exc_ = nullptr;
  }
  void wait_for_trigger_cycle_to_finish()
  {
    if (!running_) return;
    if (manual_) { while (!shim::manual_async().abandon && in_progress_ && !stop_) execute(); return; }
    std::unique_lock<std::mutex> l(m_);
    done_.wait(l, [this] { return !in_progress_ || stop_; });
  }
  bool pause_execution() { paused_ = true; wait_for_trigger_cycle_to_finish(); return true; }
  void join_async_callback_thread() { if (th_.joinable()) th_.join(); }
  void stop_thread()
  {
    if (!running_) return;
    if (manual_) { wait_for_trigger_cycle_to_finish(); stop_ = true; running_ = false; forget(); return; }
    { std::lock_guard<std::mutex> g(m_); stop_ = true; }
    cv_.notify_one();
    if (th_.joinable()) th_.join();
    running_ = false;
  }
private:
  void forget()
  {
    auto & ma = shim::manual_async();
    std::lock_guard<std::recursive_mutex> g(ma.m);
    ma.pending.erase(this);
    ma.order.erase(std::remove(ma.order.begin(), ma.order.end(), static_cast<const void *>(this)), ma.order.end());
  }
  void execute()
  {
    const auto s = std::chrono::steady_clock::now();
    try { ret_ = cb_(t_, p_); } catch (...) { exc_ = std::current_exception(); }
    last_ = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - s);
    std::lock_guard<std::mutex> g(m_);
    in_progress_ = false;
  }
  Callback cb_;
  AsyncFunctionHandlerParams par_;
  std::function<bool()> pred_ = [] { return true; };
  std::thread th_;
  std::mutex m_;
  std::condition_variable cv_, done_;
  rclcpp::Time t_{0, 0, RCL_CLOCK_UNINITIALIZED};
  rclcpp::Duration p_{0, 0};
  std::atomic<bool> in_progress_{false}, stop_{false}, running_{false}, paused_{false};
  bool manual_ = false;
  std::atomic<T> ret_{T()};
  std::chrono::nanoseconds last_{0};
  std::exception_ptr exc_ = nullptr;
};
}  // namespace realtime_tools
