#ifndef ALEPH_CONFIG_TINYXML2_HH__
#define ALEPH_CONFIG_TINYXML2_HH__
#define ALEPH_WITH_TINYXML2
#endif
