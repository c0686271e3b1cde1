// Random types: what is reflected of them, and the code generated from their schemas (see gen_types.py).
#include "vh.h"
#include <sys/wait.h>

static const std::string kDir = std::string(__FILE__).substr(0, std::string(__FILE__).rfind('/'));

static void RunCase(uint64_t seed, bool cycles) {
  const std::string dir = vh::opt().scratch + "/types";
  const std::string cmd = "rm -rf '" + dir + "'; timeout 800 python3 '" + kDir + "/gen_types.py' " + std::to_string(seed) + " '" + dir + "' " + (cycles ? "cycles" : "nocycles") + " /repo 2>&1";
  FILE* p = popen(cmd.c_str(), "r");
  if (!p) abort();
  std::string line, last;
  std::vector<std::string> lines;
  int c;
  while ((c = fgetc(p)) != EOF) {
    if (c == '\n') {
      lines.push_back(line);
      line.clear();
    } else {
      line += static_cast<char>(c);
    }
  }
  if (!line.empty()) lines.push_back(line);
  const int rc = pclose(p);
  for (const std::string& l : lines) {
    if (l.compare(0, 10, "VIOLATION ") == 0) {
      const size_t tab = l.find('\t');
      vh::Violation(l.substr(10, tab == std::string::npos ? std::string::npos : tab - 10), tab == std::string::npos ? "" : l.substr(tab + 1));
    } else if (l.compare(0, 6, "COUNT ") == 0) {
      const size_t sp = l.rfind(' ');
      vh::Count(l.substr(6, sp - 6), strtoull(l.c_str() + sp, nullptr, 10));
    } else if (l.compare(0, 5, "EVAL ") == 0) {
      vh::Eval(strtoull(l.c_str() + 5, nullptr, 10));
    } else if (l.compare(0, 9, "DISTINCT ") == 0) {
      vh::Distinct(strtoull(l.c_str() + 9, nullptr, 10));
    } else if (l.compare(0, 7, "SAMPLE ") == 0) {
      vh::Sample(l.substr(7));
    }
  }
  if (rc) {
    fprintf(stderr, "gen_types.py: %d\n", rc);
    for (const std::string& l : lines) fprintf(stderr, "%s\n", l.c_str());
    // The types generated are correct C++: not compiling is a violation, of the library's.
    if (WIFEXITED(rc) && WEXITSTATUS(rc) == 3) {
      vh::Violation("schema:types do not compile", lines.empty() ? "" : lines.back());
    } else {
      abort();
    }
  }
  if (system(("rm -rf '" + dir + "'").c_str())) abort();
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [] {
    vh::Rng rng(vh::opt().seed);
    const bool cycles = vh::opt().mode == "cycles";
    for (uint64_t i = 0; i < vh::opt().cases && !vh::TooMany(); ++i) {
      const uint64_t seed = rng.next() % 1000000000;
      vh::CaseDurable("types seed=" + std::to_string(seed));
      RunCase(seed, cycles);
      vh::Count("programs");
    }
  });
}
