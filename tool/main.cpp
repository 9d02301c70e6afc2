#include "rules.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <iostream>
#include <fstream>
using namespace llvm;
static string q(const string &s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
template<class C, class F> static string arr(const C &c, F f) { string r = "["; bool first = true; for (auto &x : c) { if (!first) r += ","; first = false; r += f(x); } return r + "]"; }
int main(int argc, char **argv) {
  vector<string> files, entries; bool alloc = false, verbose = false; double secs = 300; string json; int widen = 3;
  for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "-e") entries.push_back(argv[++i]); else if (a == "-alloc") alloc = true; else if (a == "-v") verbose = true; else if (a == "-w") widen = atoi(argv[++i]); else if (a == "-t") secs = atof(argv[++i]); else if (a == "-o") json = argv[++i]; else files.push_back(a); }
  int rc = 0; std::ofstream js; if (!json.empty()) js.open(json);
  for (auto &fn : files) {
    LLVMContext C; SMDiagnostic err; auto M = parseIRFile(fn, err, C); if (!M) { err.print(argv[0], errs()); return 3; }
    vector<const Function *> fs; for (auto &f : *M) if (!f.isDeclaration()) { Engine T; string b = T.name(&f).base; if (b.compare(0, 2, "h_")) continue; if (!entries.empty() && std::find(entries.begin(), entries.end(), b) == entries.end()) continue; fs.push_back(&f); }
    for (auto *f : fs) {
      Engine E; E.setup(M.get()); E.allocFail = alloc; E.maxSeconds = secs; E.verbose = verbose; E.widenAfter = widen; if (getenv("S2CREDIT")) E.checkCredit = atoi(getenv("S2CREDIT")); SigRules R; R.init(E); addStdModels(E); R.select(E.name(f).base);
      E.run(f);
      printf("== %s: states %ld steps %ld forks %ld dedup %ld widen %ld exits %ld functions %zu time %.1f\n", E.entry.c_str(), E.nStates, E.nSteps, E.nForks, E.nDedup, E.nWiden, E.nExits, E.fnsAnalysed.size(), nowSec() - E.t0);
      if (js.is_open()) {
        js << "{\"entry\":" << q(E.entry) << ",\"states\":" << E.nStates << ",\"steps\":" << E.nSteps << ",\"forks\":" << E.nForks << ",\"dedup\":" << E.nDedup << ",\"widen\":" << E.nWiden << ",\"exits\":" << E.nExits << ",\"seconds\":" << nowSec() - E.t0
           << ",\"functions\":" << arr(E.fnsAnalysed, q) << ",\"lost\":" << arr(E.lost, q)
           << ",\"obligations\":" << arr(E.obligations, [&](const pair<const string, long> &o) { return "{\"rule\":" + q(o.first) + ",\"count\":" + std::to_string(o.second) + ",\"sites\":" + arr(E.obSites[o.first], q) + "}"; })
           << ",\"findings\":" << arr(E.findings, [&](const Finding &x) { return "{\"rule\":" + q(x.rule) + ",\"what\":" + q(x.what) + ",\"where\":" + q(x.where) + ",\"count\":" + std::to_string(x.count) + ",\"path\":" + arr(x.path, q) + "}"; }) << "}\n"; js.flush();
      }
      for (auto &l : E.lost) printf("LOST %s\n", l.c_str());
      for (auto &x : E.findings) { printf("FINDING [%s] %s at %s x%d\n", x.rule.c_str(), x.what.c_str(), x.where.c_str(), x.count); if (verbose) for (auto &p : x.path) printf("      %s\n", p.c_str()); }
      if (verbose) for (auto &o : E.obligations) printf("  obligation %-20s %ld at %zu sites\n", o.first.c_str(), o.second, E.obSites[o.first].size());
    }
  }
  return rc;
}
