#pragma once
#include "opencv2/imgproc.hpp"
