#ifndef ALEPH_CONFIG_ALEPH_HH__
#define ALEPH_CONFIG_ALEPH_HH__
#define ALEPH_COMPILER_HAS_ATTRIBUTE_DEPRECATED
#define ALEPH_COMPILER_HAS_DIAGNOSTIC_PRAGMA
#define ALEPH_COMPILER_HAS_REGEX_TOKEN_ITERATOR
#endif
