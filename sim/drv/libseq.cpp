// A program that calls LattE's library entry points several times in one process.
// calls.txt: one call per line, fields separated by tabs: kind, directory, arguments...
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include "count.h"
#include "valuation/valuation.h"

static void mark(int i, const std::string &s)
{
  std::cout << std::flush;
  fflush(stdout);
  std::cout << "\n=== call " << i << " " << s << std::endl;
}

int main(int argc, char **argv)
{
  std::ifstream in(argv[1]);
  std::vector<std::string> lines;
  std::string line;
  while (std::getline(in, line)) lines.push_back(line);
  if (in.bad()) return 3;
  in.close();
  for (unsigned i = 0; i < lines.size(); i++) {
    std::vector<std::string> f;
    std::stringstream ss(lines[i]);
    std::string x;
    while (std::getline(ss, x, '\t')) f.push_back(x);
    // arguments are owned by the caller, as those of main() are
    std::vector<char *> a;
    std::vector<std::string> keep(f.begin() + 1, f.end());
    keep[0] = "/sim/bin/" + f[0];
    for (auto &k : keep) { char *p = strdup(k.c_str()); a.push_back(p); }
    a.push_back(0);
    if (chdir(f[1].c_str())) return 3;
    mark(i, "begins");
    try {
      if (f[0] == "count") {
        CountAnswerContainer c = mainCountDriver((int) a.size() - 1, a.data());
        std::cout << std::flush;
        fflush(stdout);
        std::cout << "\n=== number " << c.numLaticePoints << "\n=== ehrhart";
        for (unsigned j = 0; j < c.ehrhart_coefficients.size(); j++) std::cout << " " << c.ehrhart_coefficients[j];
        std::cout << "\n=== series";
        for (int j = 0; j < c.seriesExpansion.length(); j++) std::cout << " " << c.seriesExpansion[j];
        std::cout << "\n=== file " << c.multivariateGenFunctionFileName << "\n";
      } else {
        Valuation::ValuationContainer v = Valuation::mainValuationDriver((const char **) a.data(), (int) a.size() - 1);
        std::cout << std::flush;
        fflush(stdout);
        for (unsigned j = 0; j < v.answers.size(); j++)
          if (v.answers[j].valuationType != PolytopeValuation::entireValuation)
            std::cout << "\n=== value " << v.answers[j].answer;
        std::cout << "\n";
      }
      mark(i, "returned");
    } catch (LattException &e) {
      mark(i, std::string("threw"));
      std::cerr << e.what() << std::endl;
    }
    for (unsigned j = 0; j + 1 < a.size(); j++) free(a[j]);
    if (chdir("..")) return 3;
  }
  std::cout << "\n=== done" << std::endl;
  return 0;
}
