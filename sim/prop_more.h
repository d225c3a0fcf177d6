#pragma once
#include "props.h"
namespace sim {
#define GEN(x) void gen##x(Plan &p, Rng &r, bool th)
GEN(C07); GEN(C08); GEN(C10); GEN(C11); GEN(C12); GEN(C13); GEN(C14); GEN(C15); GEN(C16); GEN(C17); GEN(C19); GEN(C20); GEN(C22);
GEN(C21); GEN(C24); GEN(C26); GEN(C27); GEN(C28); GEN(C29); GEN(C30); bool pickOp(Run &run, int i, const Op &op); bool readOp(Run &run, int i, const Op &op); bool standbyOp(Run &run, int i, const Op &op); bool dbselOp(Run &run, int i, const Op &op); bool placeOp(Run &run, int i, const Op &op); GEN(C25); bool containOp(Run &run, int i, const Op &op); std::string stanzaTree(Run &run, int r, const std::string &stanza); bool labelOp(Run &run, int i, const Op &op); bool selectOp(Run &run, int i, const Op &op);
bool stanzaOp(Run &run, int i, const Op &op);
bool secOp(Run &run, int i, const Op &op); GEN(C23);
bool pageOp(Run &run, int i, const Op &op);
bool expireOp(Run &run, int i, const Op &op);
bool walOp(Run &run, int i, const Op &op);
bool restoreOp(Run &run, int i, const Op &op);
struct VerifyRes { bool done = false, ok = false; int rc = -1; std::string text; };
inline bool faultsOk(Run &) { return true; }
VerifyRes verifyRepo(Run &run, int repo);
}
