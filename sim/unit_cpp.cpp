// Instances of code that the library has in headers, compiled like the library itself.
#include "EntityMetaDataBuilder.hpp"
struct Build : FiftyoneDegrees::Common::EntityMetaDataBuilder { static std::string str(fiftyoneDegreesCollection *c, uint32_t o) { return getString(c, o); } };
std::string unitString(fiftyoneDegreesCollection *c, uint32_t offset) { return Build::str(c, offset); }
