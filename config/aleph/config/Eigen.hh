#ifndef ALEPH_CONFIG_EIGEN_HH__
#define ALEPH_CONFIG_EIGEN_HH__
#define ALEPH_WITH_EIGEN
#endif
