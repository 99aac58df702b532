// Names of the delay-and-sum methods.
#pragma once
#include "bind.h"
#include "das.h"

static inline DASType das_of(Str s)
{
  if (s == "saft") return DASType::saft;
  if (s == "tfm") return DASType::tfm;
  if (s == "rca" || s == "rca_coltx") return DASType::rca_coltx;
  need(s == "rca_rowtx");
  return DASType::rca_rowtx;
}
