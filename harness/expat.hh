// VTK 9.1 misreads some of its own XML files with expat >= 2.6, whose parser defers tokens (a known incompatibility of
// these two libraries, not of the code under test): switch the deferral off for every parser VTK creates.
#ifndef VERIF_EXPAT_HH
#define VERIF_EXPAT_HH
#include <dlfcn.h>
extern "C" __attribute__((visibility("default"), used)) void* XML_ParserCreate(const char* e) {
  auto f = (void* (*)(const char*))dlsym(RTLD_NEXT, "XML_ParserCreate"); void* p = f ? f(e) : nullptr;
  auto d = (unsigned char (*)(void*, unsigned char))dlsym(RTLD_NEXT, "XML_SetReparseDeferralEnabled"); if (d && p) d(p, 0);
  return p;
}
extern "C" __attribute__((visibility("default"), used)) void* XML_ParserCreate_MM(const char* e, const void* m, const char* s) {
  auto f = (void* (*)(const char*, const void*, const char*))dlsym(RTLD_NEXT, "XML_ParserCreate_MM"); void* p = f ? f(e, m, s) : nullptr;
  auto d = (unsigned char (*)(void*, unsigned char))dlsym(RTLD_NEXT, "XML_SetReparseDeferralEnabled"); if (d && p) d(p, 0);
  return p;
}
#endif
