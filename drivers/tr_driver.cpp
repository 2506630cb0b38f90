// Drives transmissions and their loaders.  Values are in units of 1/4096, reductions in units of 1/8.
#include <nlohmann/json.hpp>

#include <cmath>
#include <deque>
#include <fstream>
#include <memory>
#include <sstream>

#include "hardware_interface/component_parser.hpp"
#include "pluginlib/class_loader.hpp"
#include "transmission_interface/transmission.hpp"
#include "transmission_interface/transmission_loader.hpp"
using json = nlohmann::json;
using namespace transmission_interface;
// the headers of the transmissions cannot be included together
using Vec = std::vector<double>;
std::shared_ptr<Transmission> make_simple(const Vec &, const Vec &, const Vec &);
std::shared_ptr<Transmission> make_differential(const Vec &, const Vec &, const Vec &);
std::shared_ptr<Transmission> make_fourbar(const Vec &, const Vec &, const Vec &);

static const int64_t NAN_ = 2000000000, ODD = 1999999997;
static double dec(int64_t v) { return v == NAN_ ? std::nan("") : static_cast<double>(v) / 4096; }
static int64_t enc(double v)
{
  if (std::isnan(v)) return NAN_;
  v *= 4096;
  return std::fabs(v) > 1.9e9 || v != std::floor(v) ? ODD : static_cast<int64_t>(v);
}
static std::string jname(int n) { return "joint" + std::to_string(n); }
static std::string aname(int n) { return "motor" + std::to_string(n); }
static std::string num(double d)
{
  std::ostringstream o;
  o.precision(17);
  o << d;
  return o.str();
}
static std::string cls(const std::string & t)
{
  return t == "simple" ? "SimpleTransmission" : t == "differential" ? "DifferentialTransmission" : "FourBarLinkageTransmission";
}

static std::string part(const json & p, const std::string & tag, const std::string & name, int k, const std::string & flaw, int mix)
{
  std::string s = "<" + tag;
  if (!(flaw == "name" && k == 0)) s += " name=\"" + name + "\"";
  if (!(flaw == "role" && k == 0)) s += " role=\"" + tag + std::to_string(k + 1) + "\"";
  s += ">";
  const std::string r = p["txt"].get<bool>() ? "<mechanical_reduction>two</mechanical_reduction>"
                                             : "<mechanical_reduction>" + num(p["r"].get<double>() / 8) + "</mechanical_reduction>";
  const std::string o = "<offset>" + num(p["o"].get<double>() / 4096) + "</offset>";
  if (!p["no"].get<bool>()) s += mix == 0 ? r + o : mix == 1 ? o + r : "<x>1</x>" + r + "<y/>" + o;
  return s + "</" + tag + ">";
}

static hardware_interface::TransmissionInfo info_of(const json & o)
{
  const std::string flaw = o["flaw"];
  const int mix = o["mix"];
  if (o["how"] == "struct")
  {
    hardware_interface::TransmissionInfo t;
    t.name = "tr";
    for (auto & p : o["js"])
    {
      hardware_interface::JointInfo j;
      j.name = jname(p["n"]);
      j.mechanical_reduction = p["r"].get<double>() / 8;
      j.offset = p["o"].get<double>() / 4096;
      t.joints.push_back(j);
    }
    for (auto & p : o["as"])
    {
      hardware_interface::ActuatorInfo a;
      a.name = aname(p["n"]);
      a.mechanical_reduction = p["r"].get<double>() / 8;
      a.offset = p["o"].get<double>() / 4096;
      t.actuators.push_back(a);
    }
    return t;
  }
  std::string links = "<link name=\"base\"/>", rc, joints, tr;
  int k = 0;
  for (auto & p : o["js"])
  {
    const auto n = jname(p["n"]);
    links += "<link name=\"l" + n + "\"/><joint name=\"" + n + "\" type=\"continuous\"><parent link=\"base\"/><child link=\"l" + n +
             "\"/></joint>";
    if (!(flaw == "unknown" && k == 0)) joints += "<joint name=\"" + n + "\"><command_interface name=\"position\"/></joint>";
    tr += part(p, "joint", n, k++, flaw, mix);
  }
  k = 0;
  for (auto & p : o["as"]) tr += part(p, "actuator", aname(p["n"]), k++, k == 0 && flaw == "name" ? "" : flaw, mix);
  const std::string plugin = flaw == "plugin" ? "" : "<plugin>transmission_interface/" + cls(o["t"]) + "</plugin>";
  const std::string urdf = "<?xml version=\"1.0\"?><robot name=\"r\">" + links + "<ros2_control name=\"hw\" type=\"system\"><hardware><plugin>p</plugin></hardware>" +
                           joints + "<transmission name=\"tr\">" + plugin + tr + "</transmission></ros2_control></robot>";
  return hardware_interface::parse_control_resources_from_urdf(urdf).at(0).transmissions.at(0);
}

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::shared_ptr<Transmission> t;
  std::deque<double> jv, av;
  auto none = [&] { t.reset(); jv.clear(); av.clear(); };
  std::string line;
  while (std::getline(in, line))
  {
    const json o = json::parse(line);
    const std::string op = o["op"];
    std::string res = "OK";
    auto vec = [&](const char * k, double u) {
      std::vector<double> r;
      for (auto & x : o[k]) r.push_back(x.get<double>() / u);
      return r;
    };
    try
    {
      if (op == "RESET") none();
      else if (op == "NEW")
      {
        none();
        t = (o["t"] == "simple" ? make_simple : o["t"] == "differential" ? make_differential : make_fourbar)(
          vec("ar", 8), vec("jr", 8), vec("off", 4096));
      }
      else if (op == "LOAD")
      {
        none();
        const auto info = info_of(o);
        pluginlib::ClassLoader<TransmissionLoader> cl("transmission_interface", "transmission_interface::TransmissionLoader");
        t = cl.createSharedInstance("transmission_interface::" + cls(o["t"]) + "Loader")->load(info);
        if (!t) res = "NULL";
      }
      else if (!t) res = "NONE";
      else if (op == "CONF")
      {
        jv.clear();
        av.clear();
        std::vector<JointHandle> jh;
        std::vector<ActuatorHandle> ah;
        size_t k = 0;
        for (auto & h : o["jh"])
        {
          jv.push_back(dec(o["jv"][k++]));
          jh.emplace_back(jname(h["n"]), h["i"].get<std::string>(), h["ok"].get<bool>() ? &jv.back() : nullptr);
        }
        k = 0;
        for (auto & h : o["ah"])
        {
          av.push_back(dec(o["av"][k++]));
          ah.emplace_back(aname(h["n"]), h["i"].get<std::string>(), h["ok"].get<bool>() ? &av.back() : nullptr);
        }
        t->configure(jh, ah);
      }
      else if (op == "SETV")
      {
        for (size_t k = 0; k < jv.size(); ++k) jv[k] = dec(o["jv"][k]);
        for (size_t k = 0; k < av.size(); ++k) av[k] = dec(o["av"][k]);
      }
      else if (op == "A2J") t->actuator_to_joint();
      else if (op == "J2A") t->joint_to_actuator();
    }
    catch (const std::exception &)
    {
      res = "THROW";
    }
    json e = o;
    e["res"] = res;
    e["jv"] = json::array();
    e["av"] = json::array();
    for (auto v : jv) e["jv"].push_back(enc(v));
    for (auto v : av) e["av"].push_back(enc(v));
    out << e.dump() << "\n";
    out.flush();
  }
  return 0;
}
