#ifndef ALEPH_CONFIG_RAPIDJSON_HH__
#define ALEPH_CONFIG_RAPIDJSON_HH__
#define ALEPH_WITH_RAPID_JSON
#endif
