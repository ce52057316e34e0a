#pragma once
#include "exec.h"
extern Module* M; extern const DataLayout* DL;
extern std::map<const GlobalValue*, u64> gaddr;
extern std::vector<Function*> fnById;
void leaves(Type* t, std::vector<unsigned>& w);
void leafOffsets(Type* t, u64 base, std::vector<u64>& o);
void constLeaves(Constant* c, std::vector<V>& out);
DF* decode(Function* F);
void liveness(DF* d);
int extId(Function* f);
