#pragma once
#include "PTL/ptl.hh"
