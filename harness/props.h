#ifndef PROPS_H
#define PROPS_H
#include "vf.h"
namespace vf {
extern u64 g_case;               // index of the current case
void patience(u64 times);        // the current case is at work and may take longer
bool inputs_intact(const Call &c, const Live &l, char *msg, size_t n);
void fail_call(const Call &c, const char *key, const char *what);
void discard(Tensor out);
void perturb(Src &s, const Call *like = NULL);
bool run_and_compare(const Call &c, bool judge_invalid);
void index_case(Src &s);
void create_case(Src &s);
void broadcast_case(Src &s);
void m01(Src &s), m02(Src &s), m03(Src &s), m04(Src &s), m05(Src &s), s01(Src &s), s02(Src &s), s03(Src &s), s04(Src &s);
}  // namespace vf
#endif
