// Drives one controller (chainable or not) by itself.
#include <nlohmann/json.hpp>

#include <cmath>
#include <fstream>
#include <memory>

#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "rclcpp/rclcpp.hpp"
using json = nlohmann::json;
namespace ci = controller_interface;
namespace hi = hardware_interface;

static json cur, calls;
static int lent = 0;
static int ival(double v) { return std::isnan(v) || std::fabs(v) > 1e6 ? 999999 : static_cast<int>(v); }
static int ival(const std::optional<double> & v) { return v ? ival(*v) : 888888; }
static ci::CallbackReturn ret(const std::string & o)
{
  if (o == "X") throw std::runtime_error("injected");
  return o == "OK" ? ci::CallbackReturn::SUCCESS : o == "F" ? ci::CallbackReturn::FAILURE : ci::CallbackReturn::ERROR;
}

template <class Base> struct Ctl : Base
{
  ci::CallbackReturn on_init() override { return ret(cur["o"]); }
  ci::InterfaceConfiguration command_interface_configuration() const override { return {}; }
  ci::InterfaceConfiguration state_interface_configuration() const override { return {}; }
  ci::CallbackReturn go(const char * n)
  {
    calls.push_back(n);
    return ret(cur["o"]);
  }
  ci::CallbackReturn on_configure(const rclcpp_lifecycle::State &) override { return go("CONF"); }
  ci::CallbackReturn on_activate(const rclcpp_lifecycle::State &) override { return go("ACT"); }
  ci::CallbackReturn on_deactivate(const rclcpp_lifecycle::State &) override { return go("DEA"); }
  ci::CallbackReturn on_cleanup(const rclcpp_lifecycle::State &) override { return go("CLE"); }
  ci::CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return cur["op"] == "SHUT" ? go("SHUT") : ci::CallbackReturn::SUCCESS; }
  ci::CallbackReturn on_error(const rclcpp_lifecycle::State &) override
  {
    calls.push_back("error");
    return cur["e"].get<bool>() ? ci::CallbackReturn::SUCCESS : ci::CallbackReturn::FAILURE;
  }
  ci::return_type wr()
  {
    calls.push_back("wr");
    return cur["wr"] == "OK" ? ci::return_type::OK : ci::return_type::ERROR;
  }
};
struct Plain : Ctl<ci::ControllerInterface>
{
  ci::return_type update(const rclcpp::Time &, const rclcpp::Duration &) override { return wr(); }
};
struct Chain : Ctl<ci::ChainableControllerInterface>
{
  size_t nref = 0, nsta = 0;  // exported through the values of the base class
  ci::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override
  {
    calls.push_back("sub");
    return cur["sub"] == "OK" ? ci::return_type::OK : ci::return_type::ERROR;
  }
  ci::return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration &) override { return wr(); }
  bool on_set_chained_mode(bool) override
  {
    calls.push_back("chain");
    return cur["o"].get<bool>();
  }
  template <class H> std::vector<H> olds(std::vector<double> & vals, size_t size)
  {
    vals.assign(size, cur["v"].get<double>());
    vals.reserve(8);
    std::vector<H> v;
    size_t k = 0;
    for (auto & h : cur["old"])
    {
      v.emplace_back(h["p"].get<std::string>(), h["n"].get<std::string>(), k < vals.size() ? &vals[k] : &spare);
      ++k;
    }
    return v;
  }
  template <class H> std::vector<std::shared_ptr<H>> news()
  {
    std::vector<std::shared_ptr<H>> v;
    for (auto & h : cur["new"])
    {
      hi::InterfaceInfo i;
      i.name = h["n"].get<std::string>();
      i.data_type = "double";
      v.push_back(std::make_shared<H>(hi::InterfaceDescription(h["p"].get<std::string>(), i)));
      (void)v.back()->set_value(cur["v"].get<double>());
    }
    return v;
  }
  double spare = 0;
  std::vector<hi::CommandInterface> on_export_reference_interfaces() override
  {
    nref = cur["old"].size();
    return olds<hi::CommandInterface>(reference_interfaces_, cur["size"].get<size_t>());
  }
  std::vector<hi::CommandInterface::SharedPtr> on_export_reference_interfaces_list() override { return news<hi::CommandInterface>(); }
  std::vector<hi::StateInterface> on_export_state_interfaces() override
  {
    nsta = cur["old"].size();
    return olds<hi::StateInterface>(state_interfaces_values_, cur["old"].size());
  }
  std::vector<hi::StateInterface::SharedPtr> on_export_state_interfaces_list() override { return news<hi::StateInterface>(); }
  // the values as the controller sees them
  int seen(size_t k) { return k < nref ? ival(reference_interfaces_.at(k)) : ival(ordered_exported_reference_interfaces_.at(k)->get_optional()); }
  int shown(size_t k) { return k < nsta ? ival(state_interfaces_values_.at(k)) : ival(ordered_exported_state_interfaces_.at(k)->get_optional()); }
  bool same(size_t k, const std::string & n) { return exported_reference_interface_names_.at(k) == n && exported_reference_interfaces_.at(n) == ordered_exported_reference_interfaces_.at(k); }
  bool sames(size_t k, const std::string & n) { return exported_state_interface_names_.at(k) == n && exported_state_interfaces_.at(n) == ordered_exported_state_interfaces_.at(k); }
  void put(size_t k, double v)
  {
    if (k < nref) reference_interfaces_.at(k) = v;
    else (void)ordered_exported_reference_interfaces_.at(k)->set_value(v);
  }
  void show(size_t k, double v)
  {
    if (k < nsta) state_interfaces_values_.at(k) = v;
    else (void)ordered_exported_state_interfaces_.at(k)->set_value(v);
  }
};

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  rclcpp::init(0, nullptr);
  std::shared_ptr<ci::ControllerInterfaceBase> c;
  Chain * ch = nullptr;
  std::vector<hi::CommandInterface::SharedPtr> refs;
  std::vector<hi::StateInterface::ConstSharedPtr> stas;
  auto pool = std::make_shared<hi::CommandInterface>("hw", "x", "double", "0.0");
  std::string line;
  while (std::getline(in, line))
  {
    cur = json::parse(line);
    const std::string op = cur["op"];
    std::string res = "OK";
    calls = json::array();
    try
    {
      auto n = c ? c->get_node() : nullptr;
      if (op == "RESET" || op == "NEW")
      {
        n.reset();
        refs.clear();
        stas.clear();
        c.reset();
        calls = json::array();
        ch = nullptr;
        lent = 0;
        if (op == "RESET")
        {
          out << cur.dump() << std::endl;
          continue;
        }
        if (cur["chn"].get<bool>())
        {
          auto p = std::make_shared<Chain>();
          ch = p.get();
          c = p;
        }
        else c = std::make_shared<Plain>();
        ci::ControllerInterfaceParams p;
        p.controller_name = "ctl";
        p.update_rate = p.controller_manager_update_rate = cur["cm"].get<unsigned>();
        if (c->init(p) != ci::return_type::OK) res = "ERROR";
      }
      else if (op == "PAR") c->get_node()->set_parameter(rclcpp::Parameter("update_rate", cur["r"].get<int>()));
      else if (op == "CONF") c->configure();
      else if (op == "ACT") n->activate();
      else if (op == "DEA") n->deactivate();
      else if (op == "CLE") n->cleanup();
      else if (op == "SHUT") n->shutdown();
      else if (op == "CHAIN") res = c->set_chained_mode(cur["b"]) ? "OK" : "REFUSED";
      else if (op == "UPD")
      {
        const auto s = c->trigger_update(rclcpp::Time(1, 0), rclcpp::Duration(0, 5));
        res = s.result == ci::return_type::OK ? "OK" : "ERROR";
        if (!s.successful || !s.period || s.period->nanoseconds() != 5) res = "BADSTATUS";
      }
      else if (op == "EXPR")
      {
        refs.clear();
        refs = c->export_reference_interfaces();
      }
      else if (op == "EXPS")
      {
        stas.clear();
        stas = c->export_state_interfaces();
      }
      else if (op == "WREF" && cur["k"].get<size_t>() <= refs.size()) (void)refs[cur["k"].get<size_t>() - 1]->set_value(cur["v"].get<double>());
      else if (op == "CREF" && cur["k"].get<size_t>() <= refs.size()) ch->put(cur["k"].get<size_t>() - 1, cur["v"]);
      else if (op == "WSTA" && cur["k"].get<size_t>() <= stas.size()) ch->show(cur["k"].get<size_t>() - 1, cur["v"]);
      else if (op == "LEND")
      {
        std::vector<hi::LoanedCommandInterface> l;
        for (int k = 0; k < cur["n"].get<int>(); ++k, ++lent) l.emplace_back(pool, [] { --lent; });
        c->assign_interfaces(std::move(l), {});
      }
      else if (op == "RELEASE") c->release_interfaces();
    }
    catch (const std::exception &)
    {
      res = "THROW";
    }
    json e = cur;
    e["res"] = res;
    e["calls"] = calls;
    e["id"] = c->get_lifecycle_state().id();
    e["lid"] = c->get_lifecycle_id();
    e["rate"] = c->get_update_rate();
    e["chd"] = c->is_in_chained_mode();
    e["loans"] = lent;
    e["refs"] = e["stas"] = json::array();
    for (size_t k = 0; k < refs.size(); ++k)
      e["refs"].push_back({{"n", refs[k]->get_name()}, {"u", ival(refs[k]->get_optional())}, {"c", ch->same(k, refs[k]->get_name()) ? ch->seen(k) : 777777}});
    for (size_t k = 0; k < stas.size(); ++k)
      e["stas"].push_back({{"n", stas[k]->get_name()}, {"u", ival(stas[k]->get_optional())}, {"c", ch->sames(k, stas[k]->get_name()) ? ch->shown(k) : 777777}});
    out << e.dump() << "\n";
    out.flush();
  }
  c.reset();
  return 0;
}
