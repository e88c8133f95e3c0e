#include "vf_cuda.hpp"
