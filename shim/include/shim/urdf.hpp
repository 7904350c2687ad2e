#ifndef SHIM_URDF_HPP_
#define SHIM_URDF_HPP_
#include "shim/core.hpp"
#include "urdf_parser/urdf_parser.h"
namespace urdf
{
class Model : public ModelInterface
{
public:
  bool initString(const std::string & s)
  {
    auto m = parseURDF(s);
    if (!m) return false;
    static_cast<ModelInterface &>(*this) = *m; return true;
  }
};
}
#endif
