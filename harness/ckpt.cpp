// check-pointing: when are files written and removed; what if writing fails
#include "common/GCommonInterfaceT.hpp"
#include "geneva/GObject.hpp"
#include <fstream>
// stands for the Boost.Serialization archives
static int g_state, g_loaded;
namespace Gem { namespace Common {
template <> void GCommonInterfaceT<Gem::Geneva::GObject>::toStream(std::ostream &o, const serializationMode &m) const { o << "state " << g_state << ' ' << (int)m << " end\n"; }
template <> void GCommonInterfaceT<Gem::Geneva::GObject>::fromStream(std::istream &i, const serializationMode &m) { std::string a, e; int s = -1, k = -1; i >> a >> s >> k >> e; g_loaded = a == "state" && e == "end" && k == (int)m ? s : -1; }
}}
#include "ind.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
using EA = GEvolutionaryAlgorithm; extern "C" void vs_disk_limit(long);
static std::string name(int it, int f) { return "cp/checkpoint-PERSONALITY_EA-" + std::to_string(it) + "-" + Gem::Common::to_string((double)f) + "-my-cp.x"; }
static bool ex(const std::string &n) { return std::filesystem::exists(n); }
static void setup(EA &a, int interval, bool rm) { a.setCheckpointBaseName("cp", "my-cp.x"); a.setCheckpointInterval(interval); a.setRemoveCheckpointFiles(rm); a.setCheckpointSerializationMode(Gem::Common::serializationMode::TEXT); a.m_halted = false; }
static void best(EA &a, double f) { auto p = std::make_shared<Ind>(0, std::vector<double>{f}); p->set_processing_status(Gem::Courtier::processingStatus::DO_PROCESS); p->process(); a.m_bestGlobalIndividuals_pq.clear(); a.m_bestGlobalIndividuals_pq.add(p, true); }
HARNESS h_policy() {
  EA a; int interval = (int)sym_choice("interval", 4) - 1; bool rm = sym_choice("remove", 2); setup(a, interval, rm); VASSERT(std::filesystem::is_directory("cp"), "missing directories are created"); best(a, 9); int f = 9; std::string last; std::vector<std::string> all;
  for (int it = 0; it < 4; it++) {
    bool better = sym_choice("better", 2), disk = sym_choice("diskfull", 2); a.m_iteration = it; if (better) best(a, f = -it); g_state = it;
    bool save = interval < 0 ? better : interval > 0 && it % interval == 0; bool thrown = false; if (disk) vs_disk_limit(5); try { a.checkpoint(better); } catch (const gemfony_exception &) { thrown = true; } vs_disk_limit(-1);
    VASSERT(thrown == (save && disk), "failure to write a checkpoint is reported"); std::string n = name(it, f);
    if (save && !disk) { VASSERT(ex(n), "checkpoints are written in the requested intervals"); if (rm) for (auto &o : all) VASSERT(!ex(o), "former checkpoints are removed if requested"); if (!rm) for (auto &o : all) VASSERT(ex(o), "former checkpoints are kept if requested"); all.push_back(n); last = n; vs_reach("saved"); }
    else if (!save) VASSERT(!ex(n), "no checkpoint is written if none is due"); else vs_reach("failed");
    if (!last.empty()) VASSERT(ex(last), "the last good checkpoint is still available");
  }
  if (!last.empty()) { EA b; b.setCheckpointSerializationMode(Gem::Common::serializationMode::TEXT); g_loaded = -1; b.loadCheckpoint(last); VASSERT(g_loaded >= 0, "checkpoints can be loaded"); vs_reach("loaded"); }
}
// the name of a checkpoint may occur again, e.g. in a second run
HARNESS h_again() {
  EA a; setup(a, 1, sym_choice("remove", 2)); best(a, 1); std::string n = name(0, 1);
  a.m_iteration = 0; g_state = 5; a.checkpoint(false); if (sym_choice("other", 2)) { a.m_iteration = 1; a.checkpoint(true); } a.m_iteration = 0; g_state = 7; a.checkpoint(false); VASSERT(ex(n), "the last checkpoint is still available"); g_loaded = -1; EA b; b.setCheckpointSerializationMode(Gem::Common::serializationMode::TEXT); b.loadCheckpoint(n); VASSERT(g_loaded == 7, "the file holds the latest state"); vs_reach("done");
}
HARNESS h_load() {
  std::filesystem::create_directory("cp"); static const char *nm[] = {"cp/checkpoint-PERSONALITY_EA-3-1-x", "cp/checkpoint-PERSONALITY_SWARM-3-1-x", "cp/nonsense", "cp/checkpoint-PERSONALITY_EAX-1", "cp/checkpoint-PERSONALITY_EA", "cp/checkpoint-PERSONALITY_EA-4--1e-05-b-c"}; int i = sym_choice("name", 6); bool there = sym_choice("exists", 2);
  if (there) { std::ofstream o(nm[i]); o << "state 3 0 end\n"; } EA a; a.setCheckpointSerializationMode(Gem::Common::serializationMode::TEXT); g_loaded = -1; bool thrown = false; try { a.loadCheckpoint(nm[i]); } catch (const gemfony_exception &) { thrown = true; }
  bool ok = there && (i == 0 || i >= 4); VASSERT(thrown == !ok, "only existing checkpoints of the same algorithm are loaded"); VASSERT((g_loaded == 3) == ok, "the state is loaded"); vs_reach(ok ? "loaded" : "refused");
}
HARNESS h_dir() { EA a; int w = sym_choice("what", 4); bool t = false; if (w == 1) { std::ofstream o("cpx"); o << "x"; } if (w == 2) std::filesystem::create_directory("cpx"); try { a.setCheckpointBaseName(w == 3 ? "" : "cpx", "n"); } catch (const gemfony_exception &) { t = true; } VASSERT(t == (w == 1 || w == 3), "checkpoint directories are checked"); if (!t) VASSERT(std::filesystem::is_directory("cpx") && a.getCheckpointDirectory() == "cpx" && a.getCheckpointBaseName() == "n", "directory and name are stored"); vs_reach(t ? "refused" : "set"); }
