#ifndef VF_CFG
#define VF_CFG
#define LIBFLATARRAY_WITH_CPP14 1
#endif
