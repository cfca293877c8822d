// Runner of the property testing engine: run, replay and shrink modes.
#include "engine.hh"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dune/common/exceptions.hh>

namespace vt {
std::vector<Property>& registry() { static std::vector<Property> r; return r; }
}
using namespace vt;

static std::string jsonEscape(const std::string& s)
{
  std::string o;
  for (unsigned char ch : s) {
    switch (ch) {
      case '"' : o += "\\\""; break;
      case '\\' : o += "\\\\"; break;
      case '\n' : o += "\\n"; break;
      case '\t' : o += "\\t"; break;
      default : if (ch < 32 || ch > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += char(ch);
    }
  }
  return o;
}

static const Property& find(const std::string& id, const std::string& part)
{
  for (auto& p : registry()) if (p.id == id && p.part == part) return p;
  std::cerr << "no such property " << id << "/" << part << "\n"; std::exit(2);
}

static void caseLimits(int cpu, int wall)
{
  itimerval t{}; t.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &t, nullptr);
  alarm(wall);
}

// run one case; true if it passed
static bool runCase(const Property& p, Source& s, Ctx& c, std::string& msg)
{
  try { p.fn(s, c); return true; }
  catch (Failure& f) { msg = f.what(); }
  catch (Dune::Exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
  catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
  return false;
}

static std::vector<uint64_t> readSeq(const std::string& f)
{
  std::ifstream in(f); std::vector<uint64_t> v; uint64_t x; while (in >> x) v.push_back(x); return v;
}
static void writeSeq(const std::string& f, const std::vector<uint64_t>& v)
{
  std::ofstream o(f); for (auto x : v) o << x << "\n";
}
static uint64_t seqHash(const std::vector<uint64_t>& v) { uint64_t h = 1; for (auto x : v) h = mix(h ^ x); return h; }

int main(int argc, char** argv)
{
  std::map<std::string,std::string> a;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i+1];
  if (mode == "list") {
    for (auto& p : registry()) std::cout << p.id << "\t" << p.part << "\t" << p.rule << "\n";
    return 0;
  }
  const Property& p = find(a["--prop"], a["--part"]);
  bool th = a["--tier"] == "thorough";
  int cpu = a.count("--cpu") ? std::stoi(a["--cpu"]) : 60;

  if (mode == "run") {
    uint64_t seed = std::stoull(a["--seed"]), worker = std::stoull(a["--worker"]), nw = std::stoull(a["--nworkers"]);
    uint64_t cases = std::stoull(a["--cases"]);
    int fd = open(a["--journal"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Journal)) != 0) { std::perror("journal"); return 2; }
    auto* j = static_cast<Journal*>(mmap(nullptr, sizeof(Journal), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0));
    if (j == MAP_FAILED) { std::perror("mmap"); return 2; }
    uint64_t pseed = seed; for (char ch : p.id + "/" + p.part) pseed = mix(pseed ^ uint64_t(ch));
    Source s; s.journal = j;
    std::map<std::string,uint64_t> classes;
    std::unordered_set<uint64_t> distinct;
    uint64_t evals = 0, nontriv = 0, comps = 0; size_t maxlen = 0;
    std::vector<std::pair<uint64_t,std::string>> samples;
    std::string failMsg, failDesc; bool failed = false;
    std::map<std::string,uint64_t> known;
    if (a.count("--known")) { std::ifstream in(a["--known"]); std::string l; while (std::getline(in, l)) if (!l.empty()) known[l] = 0; }
    for (uint64_t i = worker; i < cases; i += nw) {
      Ctx c; c.classes = &classes; c.desc.precision(17);
      s.startRun(pseed, i, th);
      caseLimits(cpu, 20*cpu);
      std::string msg;
      bool ok = runCase(p, s, c, msg);
      ++evals; comps += c.comparisons; maxlen = std::max(maxlen, s.record.size());
      if (c.nontrivial) { ++nontriv; distinct.insert(c.keyed ? c.key : seqHash(s.record)); }
      if (ok && c.nontrivial && (samples.size() < 3)) samples.emplace_back(i, c.desc.str());
      if (!ok) {
        bool listed = false;
        for (auto& [k,n] : known) if (msg.find(k) != std::string::npos) { ++n; listed = true; break; }
        if (listed) continue;
      }
      if (!ok) { failed = true; failMsg = msg; failDesc = c.desc.str(); writeSeq(a["--fail"], s.record); break; }
    }
    caseLimits(0, 0);
    std::ofstream o(a["--out"]);
    o << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"comparisons\":" << comps << ",\"max_choices\":" << maxlen
      << ",\"failed\":" << (failed ? "true" : "false") << ",\"message\":\"" << jsonEscape(failMsg) << "\",\"description\":\"" << jsonEscape(failDesc) << "\",\"rule\":\"" << jsonEscape(p.rule) << "\",\"classes\":{";
    bool first = true;
    for (auto& [k,v] : classes) { o << (first ? "" : ",") << "\"" << jsonEscape(k) << "\":" << v; first = false; }
    o << "},\"samples\":["; first = true;
    for (auto& [k,v] : samples) { o << (first ? "" : ",") << "\"case " << k << ": " << jsonEscape(v.substr(0, 600)) << "\""; first = false; }
    o << "],\"known\":{"; first = true;
    for (auto& [k,v] : known) { o << (first ? "" : ",") << "\"" << jsonEscape(k) << "\":" << v; first = false; }
    o << "},\"distinct\":["; first = true;
    for (auto v : distinct) { o << (first ? "" : ",") << "\"" << std::hex << v << std::dec << "\""; first = false; }
    o << "]}\n"; o.close();
    return failed ? 10 : 0;
  }
  if (mode == "replay") {
    Source s; s.startReplay(readSeq(a["--file"]), th);
    Ctx c; c.desc.precision(17); std::string msg;
    caseLimits(cpu, 20*cpu);
    bool ok = runCase(p, s, c, msg);
    std::cout << "input: " << c.desc.str() << "\n";
    if (ok) { std::cout << "PASS\n"; return 0; }
    std::cout << "FAIL: " << msg << "\n"; return 10;
  }
  if (mode == "shrink") {
    auto best = readSeq(a["--file"]);
    int seconds = a.count("--seconds") ? std::stoi(a["--seconds"]) : 100000;
    time_t began = time(nullptr);
    int budget = a.count("--budget") ? std::stoi(a["--budget"]) : 600;
    // one attempt in a child, so that crashes and hangs count as failures
    auto fails = [&](const std::vector<uint64_t>& seq, std::vector<uint64_t>* actual) {
      --budget;
      if (time(nullptr) - began > seconds) budget = 0;
      int pfd[2]; if (pipe(pfd) != 0) std::exit(2);
      pid_t pid = fork();
      if (pid == 0) {
        close(pfd[0]);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
        caseLimits(std::min(cpu, 20), 400);
        Source s; s.startReplay(seq, th); Ctx c; std::string msg;
        bool ok = runCase(p, s, c, msg);
        uint64_t n = s.record.size();
        size_t want = n * 8;
        if (want <= 60000) { if (write(pfd[1], s.record.data(), want) < 0) _exit(3); }
        _exit(ok ? 0 : 10);
      }
      close(pfd[1]);
      std::vector<uint64_t> rec; uint64_t buf[512]; ssize_t r; std::string bytes;
      while ((r = read(pfd[0], buf, sizeof buf)) > 0) bytes.append(reinterpret_cast<char*>(buf), r);
      close(pfd[0]);
      int st; waitpid(pid, &st, 0);
      bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      if (bad && actual && !bytes.empty()) { rec.resize(bytes.size()/8); std::memcpy(rec.data(), bytes.data(), rec.size()*8); *actual = rec; }
      return bad;
    };
    auto better = [](const std::vector<uint64_t>& x, const std::vector<uint64_t>& y) { return x.size() < y.size() || (x.size() == y.size() && x < y); };
    auto attempt = [&](const std::vector<uint64_t>& seq) {
      if (budget <= 0) return false;
      std::vector<uint64_t> act = seq;
      if (!fails(seq, &act)) return false;
      if (better(act, best)) { best = act; return true; }
      if (better(seq, best)) { best = seq; return true; }
      return false;
    };
    if (!fails(best, nullptr)) { std::cout << "NOT-REPRODUCED\n"; return 0; }
    bool progress = true;
    while (progress && budget > 0) {
      progress = false;
      for (size_t len : {64, 16, 8, 4, 2, 1})
        for (size_t i = 0; i + len <= best.size() && budget > 0; ) {
          auto t = best; t.erase(t.begin()+i, t.begin()+i+len);
          if (attempt(t)) progress = true; else i += std::max<size_t>(1, len/2);
        }
      for (size_t i = 0; i < best.size() && budget > 0; ++i) {
        if (best[i] == 0) continue;
        auto t = best; t[i] = 0;
        if (attempt(t)) { progress = true; continue; }
        uint64_t lo = 0, hi = best[i];
        while (hi - lo > 1 && budget > 0 && i < best.size()) {
          uint64_t mid = lo + (hi-lo)/2; t = best; t[i] = mid;
          if (attempt(t)) { progress = true; hi = mid; } else lo = mid;
        }
      }
    }
    writeSeq(a["--out"], best);
    std::cout << "SHRUNK " << best.size() << "\n";
    return 0;
  }
  std::cerr << "unknown mode\n";
  return 2;
}
