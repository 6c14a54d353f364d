#include "mpc_utils/mpc_config.hpp"
