#!/usr/bin/env python3
"""generate_parameter_library stand-in for controller_manager_parameters.yaml.  usage: gen_params.py YAML OUT.hpp"""
import sys, yaml, os
T = {"int": ("int64_t", "PARAMETER_INTEGER"), "bool": ("bool", "PARAMETER_BOOL"), "double": ("double", "PARAMETER_DOUBLE"),
     "string": ("std::string", "PARAMETER_STRING"), "string_array": ("std::vector<std::string>", "PARAMETER_STRING_ARRAY"),
     "int_array": ("std::vector<int64_t>", "PARAMETER_INTEGER_ARRAY"), "double_array": ("std::vector<double>", "PARAMETER_DOUBLE_ARRAY")}
def lit(t, v):
    if v is None: return ""
    if t == "bool": return "true" if v else "false"
    if t == "string": return '"%s"' % v
    if t.endswith("_array"): return ", ".join(lit(t[:-6], x) for x in v)
    return str(v)
doc = yaml.safe_load(open(sys.argv[1])); (ns, tree), = doc.items()
decl, leafs = [], []
def walk(node, path, ind):
    for k, v in node.items():
        if isinstance(v, dict) and "type" in v and not isinstance(v["type"], dict):
            ct, _ = T[v["type"]]
            d = v.get("default_value", None)
            decl.append(f"{ind}{ct} {k}{{{lit(v['type'], d)}}};"); leafs.append((path + [k], v))
        else:
            nm = "".join(x.capitalize() for x in k.split("_")) + "_"
            decl.append(f"{ind}struct {nm}\n{ind}{{"); walk(v, path + [k], ind + "  "); decl.append(f"{ind}}} {k};")
walk(tree, [], "  ")
o = ['#pragma once', '#include <algorithm>', '#include <set>', '#include "rclcpp/node.hpp"', f'namespace {ns}', '{', 'struct Params', '{'] + decl + ["  uint64_t stamp_ = 0;", "};"]
o += ["class ParamListener", "{", "public:",
  "  template <class NodeT> explicit ParamListener(const std::shared_ptr<NodeT> & n, const std::string & prefix = \"\") : ParamListener(n->get_node_parameters_interface(), prefix) {}",
  "  ParamListener(const std::shared_ptr<rclcpp::node_interfaces::NodeParametersInterface> & p, const std::string & prefix = \"\") : ParamListener(p, rclcpp::get_logger(\"p\"), prefix) {}",
  "  ParamListener(const std::shared_ptr<rclcpp::node_interfaces::NodeParametersInterface> & p, rclcpp::Logger, const std::string & prefix = \"\") : p_(p), prefix_(prefix) { declare_params(); }",
  "  Params get_params() const { return params_; }",
  "  bool try_get_params(Params & o) const { o = params_; return true; }",
  "  bool is_old(const Params & o) { refresh(); return params_.stamp_ != o.stamp_; }",
  "  void refresh_dynamic_parameters() {}",
  "private:",
  "  void validate(bool ok, const std::string & n) { if (!ok) throw rclcpp::exceptions::InvalidParameterValueException(\"Invalid value set during initialization for parameter '\" + n + \"'\"); }",
  "  void declare_params()", "  {"]
for path, v in leafs:
    n = ".".join(path); ct, pt = T[v["type"]]; acc = "params_." + n
    if v.get("default_value") is None: o.append(f'    if (!p_->has_parameter(prefix_ + "{n}")) p_->declare_parameter(prefix_ + "{n}", rclcpp::{pt});')
    else: o.append(f'    if (!p_->has_parameter(prefix_ + "{n}")) p_->declare_parameter(prefix_ + "{n}", rclcpp::ParameterValue({acc}));')
o += ["    load();", "  }", "  void load()", "  {"]
for path, v in leafs:
    n = ".".join(path); ct, pt = T[v["type"]]; acc = "params_." + n
    o.append(f'    {acc} = p_->get_parameter(prefix_ + "{n}").get_value<{ct}>();')
    for k, a in (v.get("validation") or {}).items():
        k = k.replace("<>", "")
        c = {"gt": lambda: f"{acc} > {a}", "lt": lambda: f"{acc} < {a}", "gt_eq": lambda: f"{acc} >= {a}", "lt_eq": lambda: f"{acc} <= {a}",
             "not_empty": lambda: f"!{acc}.empty()",
             "unique": lambda: f"std::set<std::string>({acc}.begin(), {acc}.end()).size() == {acc}.size()",
             "one_of": lambda: "(" + " || ".join(f'{acc} == {lit(v["type"], x)}' for x in a[0]) + ")"}.get(k)
        if c: o.append(f'    validate({c()}, "{n}");')
o += ["  }", "  void refresh()", "  {", "    Params old = params_;", "    load();", "    if (differs(old)) ++params_.stamp_;", "  }", "  bool differs(const Params & o) const", "  {", "    return false"]
for path, v in leafs:
    n = ".".join(path); o.append(f"      || params_.{n} != o.{n}")
o += ["      ;", "  }", "  std::shared_ptr<rclcpp::node_interfaces::NodeParametersInterface> p_;", "  std::string prefix_;", "  Params params_;", "};", "}"]
txt = "\n".join(o) + "\n"
os.makedirs(os.path.dirname(sys.argv[2]), exist_ok=True)
if not (os.path.exists(sys.argv[2]) and open(sys.argv[2]).read() == txt): open(sys.argv[2], "w").write(txt)
