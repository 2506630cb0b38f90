#pragma once
#include <string>
#include "urdf_model/model.h"
#include <urdfdom/urdf_parser/urdf_parser.h>
namespace urdf
{
class Model : public ModelInterface
{
public:
  bool initString(const std::string & xml)
  {
    ModelInterfaceSharedPtr m;
    try { m = parseURDF(xml); } catch (...) { return false; }
    if (!m) return false;
    links_ = m->links_; joints_ = m->joints_; materials_ = m->materials_; name_ = m->name_; root_link_ = m->root_link_;
    return true;
  }
};
using ModelSharedPtr = std::shared_ptr<Model>;
}  // namespace urdf
