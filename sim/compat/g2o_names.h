// Names that older g2o releases had and the sources of the repository use.
#pragma once
#include <g2o/core/eigen_types.h>
namespace g2o
{
typedef Vector7 Vector7d;
}
