// Uses of lists of descriptors. Compiled, never run.
#include "wreport/opcodes.h"
#include <vector>

using namespace wreport;

void w_at(const Opcodes& o, unsigned i, unsigned& out) { out = o[i]; }
void w_size(const Opcodes& o, unsigned& out) { out = o.size(); }
void w_empty(const Opcodes& o, unsigned& out) { out = o.empty(); }
void w_head(const Opcodes& o, unsigned& out) { out = o.head(); }
void w_pop(Opcodes& o, unsigned& out) { out = o.pop_left(); }
void w_popn(Opcodes& o, unsigned n, Opcodes& out) { out = o.pop_left(n); }
void w_next(const Opcodes& o, Opcodes& out) { out = o.next(); }
void w_sub(const Opcodes& o, unsigned skip, Opcodes& out) { out = o.sub(skip); }
void w_sublen(const Opcodes& o, unsigned skip, unsigned len, Opcodes& out) { out = o.sub(skip, len); }
void w_vector(const std::vector<Varcode>& o, Opcodes& out) { out = Opcodes(o); }
