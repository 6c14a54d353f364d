#ifndef MPC_UTILS_BOOST_SERIALIZATION_EIGEN_HPP_
#define MPC_UTILS_BOOST_SERIALIZATION_EIGEN_HPP_
#include "Eigen/Dense"
#endif
