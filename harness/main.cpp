#include "pbt.h"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

#include "RedshiftLibrary/common/exception.h"

namespace pbt {

std::vector<Test> &registry() {
  static std::vector<Test> r;
  return r;
}

static const size_t MAXCH = 1u << 20;
// one slot of shared memory per worker
struct Slot {
  volatile uint64_t caseIndex;
  volatile uint64_t done; // cases finished
  volatile int failed;
  volatile double started; // of the current case
  char key[256];
  char msg[6000];
  volatile size_t nch;
  uint64_t ch[MAXCH];
};

static Slot *g_slot = nullptr;

static inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

uint64_t Ctx::draw(uint64_t max) {
  uint64_t v;
  if (m_replay) {
    v = m_pos < m_nreplay ? m_replay[m_pos] : 0;
    if (v > max)
      v = max == UINT64_MAX ? v : v % (max + 1);
  } else {
    uint64_t r = splitmix(m_state);
    v = max == UINT64_MAX ? r : uint64_t((unsigned __int128)r * ((unsigned __int128)max + 1) >> 64);
  }
  if (m_pos >= MAXCH)
    throw Discard();
  if (g_slot) {
    g_slot->ch[m_pos] = v;
    g_slot->nch = m_pos + 1;
  }
  ++m_pos;
  hash = (hash ^ v) * 1099511628211ULL;
  return v;
}

double Ctx::gauss() {
  // sum of 4 uniforms, variance 1: no tails, shrinks to 0
  double s = 0;
  for (int k = 0; k < 4; ++k) {
    uint64_t v = draw(2u << 16);
    // zig-zag around 0 so that the simplest choice is 0
    double x = (v & 1) ? -double((v + 1) / 2) : double(v / 2);
    s += x / double(1u << 16);
  }
  return s * std::sqrt(3. / 4.);
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return h;
}

struct Outcome {
  bool failed = false, discarded = false;
  std::string key, msg;
};

static Outcome runCase(const Test &t, Ctx &c) {
  Outcome o;
  try {
    t.fn(c);
  } catch (const Failure &f) {
    o.failed = true;
    o.key = f.key;
    o.msg = f.msg;
  } catch (const Discard &) {
    o.discarded = true;
  } catch (const NSEpic::AmzException &e) {
    o.failed = true;
    o.key = "unexpected-exception";
    o.msg = std::string("unexpected library exception: ") + e.what();
  } catch (const std::exception &e) {
    o.failed = true;
    o.key = "unexpected-exception";
    o.msg = std::string("unexpected exception: ") + e.what();
  }
  return o;
}

static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      r += '\\', r += c;
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r;
}

struct Opts {
  std::string prop, tier = "quick", out, known, replay, only;
  uint64_t seed = 1;
  int workers = 8;
  double budget = 1e9; // seconds per test
  double scale = 1;
  double caseTimeout = 60;
};

struct Stats {
  uint64_t cases = 0, nontrivial = 0, discarded = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels, known;
  std::vector<std::string> samples;
};

static std::set<std::string> g_known; // "prop/test/key"

static Slot *mkslot() {
  return (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static std::string tail(const std::string &path, size_t n) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  // an ASan report is most useful from its first line on
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p != std::string::npos)
    return s.substr(p, n);
  p = s.find("Assertion '");
  if (p != std::string::npos)
    return s.substr(p > 300 ? p - 300 : 0, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}

static std::string statusText(int st) {
  if (WIFSIGNALED(st))
    return "signal " + std::to_string(WTERMSIG(st));
  return "exit " + std::to_string(WEXITSTATUS(st));
}

struct Fail {
  bool failed = false;
  std::string key, msg;
  std::vector<uint64_t> ch;
  uint64_t caseIndex = 0;
};

// runs one choice sequence in a child of its own
static Fail runOne(const Test &t, const std::vector<uint64_t> &ch, Slot *slot, bool thorough, double tmo,
                   std::string *note = nullptr) {
  memset((void *)slot, 0, offsetof(Slot, ch));
  char errf[] = "/tmp/pbt_err_XXXXXX";
  int efd = mkstemp(errf);
  pid_t p = fork();
  if (p == 0) {
    dup2(efd, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    g_slot = slot;
    Ctx c;
    c.m_replay = ch.data();
    c.m_nreplay = ch.size();
    c.m_tier_thorough = thorough;
    Outcome o = runCase(t, c);
    snprintf(slot->msg, sizeof slot->msg, "%s", (o.failed ? o.msg : c.m_note).c_str());
    if (o.failed) {
      slot->failed = 1;
      snprintf(slot->key, sizeof slot->key, "%s", o.key.c_str());
      std::string m = o.msg + " | case: " + c.m_note;
      snprintf(slot->msg, sizeof slot->msg, "%s", m.c_str());
    }
    slot->done = 1;
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  bool tout = false;
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p)
      break;
    if (now() - t0 > tmo) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      tout = true;
      break;
    }
    usleep(300);
  }
  ::close(efd);
  Fail f;
  f.ch.assign(slot->ch, slot->ch + slot->nch);
  if (slot->failed) {
    f.failed = true;
    f.key = slot->key;
    f.msg = slot->msg;
  } else if (tout) {
    f.failed = true;
    f.key = "hang";
    f.msg = "the case did not finish";
  } else if (!slot->done) {
    f.failed = true;
    f.key = "crash";
    f.msg = "the process ended: " + statusText(st) + " " + tail(errf, 1500);
  }
  if (note)
    *note = slot->msg;
  unlink(errf);
  return f;
}

static bool isKnown(const Test &t, const std::string &key) {
  return g_known.count(t.prop + "/" + t.name + "/" + key) > 0;
}

static Fail shrink(const Test &t, Fail best, bool thorough, double budget, double tmo) {
  Slot *slot = mkslot();
  double t0 = now();
  auto better = [&](std::vector<uint64_t> c) {
    if (now() - t0 > budget)
      return false;
    Fail f = runOne(t, c, slot, thorough, tmo);
    if (!f.failed || isKnown(t, f.key) || f.key != best.key)
      return false;
    // keep what was really consumed
    if (f.ch.size() > best.ch.size() || (f.ch.size() == best.ch.size() && !(f.ch < best.ch)))
      return false;
    best = f;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len : {256, 64, 16, 8, 4, 2, 1})
      for (size_t at = 0; at + len <= best.ch.size() && now() - t0 < budget;) {
        auto c = best.ch;
        c.erase(c.begin() + at, c.begin() + at + len);
        if (better(c))
          progress = true;
        else
          at += len;
      }
    for (size_t len : {64, 8, 1})
      for (size_t at = 0; at < best.ch.size() && now() - t0 < budget; at += len) {
        auto c = best.ch;
        bool any = false;
        for (size_t k = at; k < at + len && k < c.size(); ++k)
          any = any || c[k], c[k] = 0;
        if (any && better(c))
          progress = true;
      }
    for (size_t at = 0; at < best.ch.size() && now() - t0 < budget; ++at) {
      uint64_t lo = 0, hi = best.ch[at];
      while (lo < hi && now() - t0 < budget) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto c = best.ch;
        c[at] = mid;
        if (better(c)) {
          progress = true;
          if (at >= best.ch.size())
            break;
          hi = best.ch[at];
        } else
          lo = mid + 1;
        if (hi - lo > (1ull << 40))
          break;
      }
    }
  }
  munmap(slot, sizeof(Slot));
  return best;
}

static void writeReplay(const std::string &path, const Test &t, const Fail &f, const Opts &o) {
  std::ofstream s(path);
  s << "{\"engine\":\"cpp\",\"property\":\"" << t.prop << "\",\"test\":\"" << t.name << "\",\"tier\":\"" << o.tier
    << "\",\"key\":\"" << esc(f.key) << "\",\"message\":\"" << esc(f.msg) << "\",\"choices\":[";
  for (size_t k = 0; k < f.ch.size(); ++k)
    s << (k ? "," : "") << f.ch[k];
  s << "]}\n";
}

static void worker(const Test &t, const Opts &o, size_t ncases, int w, uint64_t first, Slot *slot, const std::string &out,
                   double deadline) {
  g_slot = slot;
  Stats st;
  uint64_t base = fnv(t.prop + "/" + t.name) ^ (o.seed * 0x9E3779B97F4A7C15ULL);
  int rc = 0;
  for (uint64_t k = first; k < ncases; k += o.workers) {
    if (now() > deadline)
      break;
    slot->caseIndex = k;
    slot->nch = 0;
    slot->started = now();
    Ctx c;
    c.m_tier_thorough = o.tier == "thorough";
    c.m_state = base + k * 0xD1B54A32D192ED03ULL;
    splitmix(c.m_state);
    Outcome oc = runCase(t, c);
    ++st.cases;
    if (oc.discarded) {
      ++st.discarded;
    } else if (oc.failed) {
      if (isKnown(t, oc.key)) {
        ++st.known[oc.key];
      } else {
        slot->failed = 1;
        snprintf(slot->key, sizeof slot->key, "%s", oc.key.c_str());
        std::string m = oc.msg + " | case: " + c.m_note;
        snprintf(slot->msg, sizeof slot->msg, "%s", m.c_str());
        rc = 3;
      }
    } else {
      for (auto &l : c.m_labels)
        ++st.labels[l];
      if (c.m_nontrivial && st.hashes.insert(c.hash).second) {
        ++st.nontrivial;
        if (st.samples.size() < 2)
          st.samples.push_back(c.m_note);
      }
    }
    slot->done = k + 1;
    if (rc)
      break;
  }
  // statistics to a file, read by the parent
  std::ofstream f(out);
  f << st.cases << " " << st.discarded << " " << st.nontrivial << "\n";
  f << st.hashes.size() << "\n";
  for (auto h : st.hashes)
    f << h << "\n";
  f << st.labels.size() << "\n";
  for (auto &l : st.labels)
    f << l.second << " " << l.first << "\n";
  f << st.known.size() << "\n";
  for (auto &l : st.known)
    f << l.second << " " << l.first << "\n";
  f << st.samples.size() << "\n";
  for (auto &s : st.samples)
    f << esc(s) << "\n";
  f.close();
  fflush(nullptr);
  _exit(rc);
}

static void readStats(const std::string &path, Stats &s) {
  std::ifstream f(path);
  if (!f)
    return;
  uint64_t a, b, c, n;
  if (!(f >> a >> b >> c))
    return;
  s.cases += a;
  s.discarded += b;
  f >> n;
  for (uint64_t k = 0; k < n; ++k) {
    uint64_t h;
    f >> h;
    if (s.hashes.insert(h).second)
      ++s.nontrivial;
  }
  std::string l;
  f >> n;
  for (uint64_t k = 0; k < n; ++k) {
    uint64_t v;
    f >> v;
    std::getline(f, l);
    s.labels[l.substr(1)] += v;
  }
  f >> n;
  for (uint64_t k = 0; k < n; ++k) {
    uint64_t v;
    f >> v;
    std::getline(f, l);
    s.known[l.substr(1)] += v;
  }
  f >> n;
  std::getline(f, l);
  for (uint64_t k = 0; k < n; ++k) {
    std::getline(f, l);
    if (s.samples.size() < 4)
      s.samples.push_back(l);
  }
  unlink(path.c_str());
}

int main_(int argc, char **argv) {
  Opts o;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    auto val = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
    if (a == "--prop")
      o.prop = val();
    else if (a == "--tier")
      o.tier = val();
    else if (a == "--seed")
      o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--out")
      o.out = val();
    else if (a == "--workers")
      o.workers = atoi(val().c_str());
    else if (a == "--budget")
      o.budget = atof(val().c_str());
    else if (a == "--scale")
      o.scale = atof(val().c_str());
    else if (a == "--known")
      o.known = val();
    else if (a == "--only")
      o.only = val();
    else if (a == "--replay")
      o.replay = val();
    else if (a == "--list") {
      for (auto &t : registry())
        std::cout << t.prop << " " << t.name << " " << t.quick << " " << t.thorough << "\n";
      return 0;
    }
  }
  if (!o.known.empty()) {
    std::ifstream f(o.known);
    std::string l;
    while (std::getline(f, l))
      if (!l.empty())
        g_known.insert(l);
  }
  bool thorough = o.tier == "thorough";
  if (!o.replay.empty()) {
    // "<prop> <test>\n choices..."
    std::ifstream f(o.replay);
    std::string prop, name;
    f >> prop >> name;
    std::vector<uint64_t> ch;
    uint64_t v;
    while (f >> v)
      ch.push_back(v);
    for (auto &t : registry())
      if (t.prop == prop && t.name == name) {
        Slot *slot = mkslot();
        std::string note;
        Fail r = runOne(t, ch, slot, thorough, 4 * o.caseTimeout, &note);
        std::cout << (r.failed ? "FAILED " : "PASSED ") << r.key << " " << (r.failed ? r.msg : note) << "\n";
        return r.failed ? 1 : 0;
      }
    std::cerr << "no such test\n";
    return 2;
  }

  std::ostringstream js;
  js << "{\"tests\":[";
  bool firstTest = true, anyFail = false;
  for (auto &t : registry()) {
    if (t.prop != o.prop || (!o.only.empty() && t.name != o.only))
      continue;
    size_t ncases = size_t(std::max(1., (thorough ? t.thorough : t.quick) * o.scale));
    double t0 = now(), deadline = t0 + o.budget;
    int W = o.workers;
    Stats st;
    std::vector<Slot *> slots(W);
    std::vector<pid_t> pids(W, 0);
    std::vector<uint64_t> next(W);
    std::vector<std::string> outs(W), errs(W);
    std::vector<Fail> fails;
    auto launch = [&](int w) {
      Slot *s = slots[w];
      memset((void *)s, 0, offsetof(Slot, ch));
      s->started = now();
      char e[] = "/tmp/pbt_err_XXXXXX";
      int efd = mkstemp(e);
      errs[w] = e;
      char of[] = "/tmp/pbt_out_XXXXXX";
      int ofd = mkstemp(of);
      outs[w] = of;
      ::close(ofd);
      fflush(nullptr);
      pid_t p = fork();
      if (p == 0) {
        dup2(efd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        worker(t, o, ncases, w, next[w], s, outs[w], deadline);
      }
      ::close(efd);
      pids[w] = p;
    };
    int running = 0;
    for (int w = 0; w < W; ++w) {
      slots[w] = mkslot();
      next[w] = w;
      if ((size_t)w < ncases) {
        launch(w);
        ++running;
      }
    }
    while (running > 0) {
      int w = -1, stt = 0;
      for (int k = 0; k < W; ++k) {
        if (!pids[k])
          continue;
        pid_t r = waitpid(pids[k], &stt, WNOHANG);
        if (r == pids[k]) {
          w = k;
          break;
        }
        if (now() - slots[k]->started > o.caseTimeout) {
          kill(pids[k], SIGKILL);
          waitpid(pids[k], &stt, 0);
          slots[k]->failed = 1;
          snprintf(slots[k]->key, sizeof slots[k]->key, "hang");
          snprintf(slots[k]->msg, sizeof slots[k]->msg, "the case did not finish");
          w = k;
          break;
        }
      }
      if (w < 0) {
        usleep(2000);
        continue;
      }
      pids[w] = 0;
      --running;
      Slot *s = slots[w];
      readStats(outs[w], st);
      unlink(outs[w].c_str());
      bool clean = WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && !s->failed;
      if (!clean) {
        Fail f;
        f.failed = true;
        f.caseIndex = s->caseIndex;
        f.ch.assign(s->ch, s->ch + s->nch);
        if (s->failed) {
          f.key = s->key;
          f.msg = s->msg;
        } else {
          f.key = "crash";
          f.msg = "the process ended: " + statusText(stt) + " " + tail(errs[w], 1500);
        }
        if (isKnown(t, f.key) && (f.key == "crash" || f.key == "hang")) {
          ++st.known[f.key];
          next[w] = s->caseIndex + W;
          unlink(errs[w].c_str());
          if (next[w] < ncases && now() < deadline) {
            launch(w);
            ++running;
          }
          continue;
        }
        fails.push_back(f);
        // the others need not go on
        deadline = 0;
        for (int k = 0; k < W; ++k)
          if (pids[k]) {
            kill(pids[k], SIGKILL);
            waitpid(pids[k], &stt, 0);
            readStats(outs[k], st);
            unlink(outs[k].c_str());
            unlink(errs[k].c_str());
            pids[k] = 0;
            --running;
          }
      }
      unlink(errs[w].c_str());
    }
    Fail rep;
    std::string replayPath;
    int again = 0;
    if (!fails.empty()) {
      rep = fails[0];
      Slot *slot = mkslot();
      Fail same;
      for (int k = 0; k < 3; ++k) {
        Fail f = runOne(t, rep.ch, slot, thorough, 2 * o.caseTimeout);
        if (f.failed && !isKnown(t, f.key)) {
          ++again;
          same = f;
        }
      }
      if (again == 3) {
        anyFail = true;
        Fail m = shrink(t, same, thorough, same.key == "hang" ? 30 : 45, same.key == "hang" ? 15 : o.caseTimeout);
        rep = m;
      }
    }
    for (int w = 0; w < W; ++w)
      munmap(slots[w], sizeof(Slot));
    js << (firstTest ? "" : ",") << "{\"name\":\"" << t.name << "\",\"planned\":" << ncases << ",\"cases\":" << st.cases
       << ",\"discarded\":" << st.discarded << ",\"nontrivial\":" << st.nontrivial << ",\"wall_s\":" << now() - t0;
    js << ",\"labels\":{";
    bool fl = true;
    for (auto &l : st.labels) {
      js << (fl ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second;
      fl = false;
    }
    js << "},\"known\":{";
    fl = true;
    for (auto &l : st.known) {
      js << (fl ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second;
      fl = false;
    }
    js << "},\"samples\":[";
    for (size_t k = 0; k < st.samples.size(); ++k)
      js << (k ? "," : "") << "\"" << st.samples[k] << "\"";
    js << "]";
    if (!fails.empty()) {
      js << ",\"failure\":{\"reproduced\":" << again << ",\"key\":\"" << esc(rep.key) << "\",\"message\":\"" << esc(rep.msg)
         << "\",\"choices\":[";
      for (size_t k = 0; k < rep.ch.size(); ++k)
        js << (k ? "," : "") << rep.ch[k];
      js << "]}";
    }
    js << "}";
    firstTest = false;
  }
  js << "]}\n";
  if (!o.out.empty()) {
    std::ofstream f(o.out);
    f << js.str();
  } else
    std::cout << js.str();
  return anyFail ? 1 : 0;
}
} // namespace pbt

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
