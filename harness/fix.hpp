#pragma once
#include "ind.hpp"
#include "courtier/GExecutorT.hpp"
template <class TR> static std::shared_ptr<Ind> mkInd(int i, std::vector<double> v, bool max) {
  auto p = std::make_shared<Ind>(i, v); p->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->setPersonality(std::make_shared<TR>());
  p->set_processing_status(Gem::Courtier::processingStatus::DO_PROCESS); p->process(); return p;
}
// population after job submission: items may be missing, late items may have arrived
template <class EA, class TR> static void fixit(int n0, int np, int nold, int npar) {
  EA ea; ea.setPopulationSizes(np + 2, np); ea.m_default_n_children = 2; ea.m_iteration = 1; auto ex = std::make_shared<Gem::Courtier::GSerialExecutorT<GParameterSet>>(); ea.m_executor_ptr = ex;
  std::vector<int> par, want; int id = 0; bool lastDue = false;
  // the remaining parents keep their order, children and parents may be mixed
  for (int i = 0; i < n0; i++) { bool p = npar == 2 || (npar == 1 && sym_choice("isParent", 2)); auto x = mkInd<TR>(id++, {0.}, false); if (p) x->template getPersonalityTraits<TR>()->setIsParent(); else x->template getPersonalityTraits<TR>()->setIsChild(); x->setAssignedIteration(1); par.push_back(p); ea.push_back(x); }
  for (int i = 0; i < n0; i++) if (par[i]) want.push_back(i);
  for (int i = 0; i < n0; i++) if (!par[i]) want.push_back(i);
  for (int i = 0; i < nold; i++) {
    bool p = sym_choice("oldIsParent", 2); auto it = sym_u32("oldIteration"); VASSUME(it <= 1); auto x = mkInd<TR>(id, {0.}, false); x->setAssignedIteration(it); if (p) x->template getPersonalityTraits<TR>()->setIsParent(); else x->template getPersonalityTraits<TR>()->setIsChild();
    bool due = i == nold - 1 && sym_choice("due", 2); if (due) x->set_processing_status(Gem::Courtier::processingStatus::DO_PROCESS);
    ex->m_old_work_items_cnt.push_back(x); if (!(p && it != 1)) { want.push_back(id); lastDue = due; } id++;
  }
  bool thrown = false; try { ea.fixAfterJobSubmission(); } catch (const gemfony_exception &) { thrown = true; }
  VASSERT(thrown == (want.empty() || lastDue), "populations without any evaluated individuals are refused, nothing else"); if (thrown) { vs_reach("refused"); return; }
  size_t tot = want.size() < (size_t)np + 2 ? np + 2 : want.size(); VASSERT(ea.size() == tot, "missing individuals are replaced");
  for (size_t i = 0; i < tot; i++) {
    auto x = std::static_pointer_cast<Ind>(ea.at(i)); int w = i < want.size() ? want[i] : want.back();
    VASSERT(x->id == w, "parents come first, in their former order, then children, then late items except former parents, then clones of the last item");
    VASSERT(x->template getPersonalityTraits<TR>()->isParent() == (i < (size_t)np), "parents and children are marked as such"); VASSERT(x->getAssignedIteration() == 1, "all individuals belong to the current iteration");
    for (size_t j = 0; j < i; j++) VASSERT(ea.at(j) != ea.at(i), "individuals are distinct objects");
  }
  vs_reach("done");
}
