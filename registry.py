import os
V = os.path.dirname(os.path.abspath(__file__))
# property -> units
PROPS = {}
def prop(pid, **kw):
    kw.setdefault('units', []); PROPS[pid] = kw
def unit(pid, entry, src, reach=(), **kw):
    u = dict(entry=entry, src=src, reach=list(reach), **kw); PROPS[pid]['units'].append(u)

LOG = ['common/GLogger.cpp', 'common/GExceptions.cpp']
prop('C01')
for e in ('h_seq1', 'h_seq2', 'h_sequ'):
    unit('C01', e, 'buf.cpp', ['push', 'pop'], tus=LOG)
unit('C01', 'h_wake_producer', 'buf.cpp', ['joined'], tus=LOG, threads=True, opts=['--preempt', '3'])
unit('C01', 'h_wake_consumer', 'buf.cpp', ['joined'], tus=LOG, threads=True, opts=['--preempt', '3'])
unit('C01', 'h_2p1c', 'buf.cpp', ['done'], tus=LOG, threads=True, opts=['--preempt', '2'])
unit('C01', 'h_1p2c', 'buf.cpp', ['done'], tus=LOG, threads=True, opts=['--preempt', '2'])
unit('C01', 'h_timed', 'buf.cpp', ['done', 'second', 'push timed out', 'pop timed out'], tus=LOG, threads=True, opts=['--preempt', '2', '--timeouts', '2'])
for e in ('h_wake_2c', 'h_wake_2p'):
    unit('C01', e, 'buf.cpp', ['done'], tus=LOG, threads=True, opts=['--preempt', '2'])
prop('C03')
for e, r in (('h_pq_single', ['checked']), ('h_pq_batch', ['replaced', 'added']), ('h_pq_batch0', ['added']), ('h_pq_batch_full', ['added']), ('h_pq_dup', ['popped']), ('h_pq_resize', ['resized']), ('h_pq_copy', ['moved', 'copied'])):
    unit('C03', e, 'pq.cpp', r, tus=LOG + ['common/GExpectationChecksT.cpp', 'common/GCommonEnums.cpp', 'common/GCommonHelperFunctions.cpp'])
for e in ('h_pq_single_t', 'h_pq_batch_t'):
    unit('C03', e, 'pq.cpp', tus=LOG + ['common/GExpectationChecksT.cpp', 'common/GCommonEnums.cpp', 'common/GCommonHelperFunctions.cpp'], tiers=('thorough',))
TP = LOG + ['common/GThreadGroup.cpp', 'common/GThreadPool.cpp', 'common/GCommonHelperFunctions.cpp']
ASIO = dict(flags=['-I' + V + '/lib/shadow_asio'], tuflags=['-I' + V + '/lib/shadow_asio'])
prop('C04')
for e in ('h_barrier2', 'h_barrier3', 'h_barrier_reuse', 'h_singleton', 'h_group'):
    unit('C04', e, 'sync.cpp', ['done'], tus=TP, threads=True, opts=['--preempt', '2'], **ASIO)
prop('C02')
unit('C02', 'h_pool_width', 'sync.cpp', ['done'], tus=TP, threads=True, opts=['--preempt', '0'], **ASIO)
for e in ('h_pool_basic', 'h_pool_throw', 'h_pool_resize', 'h_pool_2sub'):
    unit('C02', e, 'sync.cpp', ['done'], tus=TP, threads=True, opts=['--preempt', '1'], **ASIO)
M = ['common/GLogger.cpp', 'common/GExceptions.cpp', 'common/GCommonMathHelperFunctions.cpp', 'common/GCommonHelperFunctions.cpp', 'common/GCommonEnums.cpp']
prop('C08')
for e, r in (('h_enforce', ['rejected', 'enforced']), ('h_enforce_f', ['enforced']), ('h_compl', ['ok']), ('h_compl_i', ['ok']), ('h_compl_u', ['ok']), ('h_cvr', ['accepted', 'rejected']), ('h_cvr_f', ['accepted', 'rejected']), ('h_cvr_i', ['accepted', 'rejected']), ('h_cvr_u', ['accepted', 'rejected']), ('h_worst', ['worst']), ('h_minmax1', ['minmax']), ('h_minmax2', ['minmax']), ('h_minmax3', ['minmax']), ('h_minmax4', ['minmax']), ('h_vec', ['vec']), ('h_mean', ['mean']), ('h_sigma', ['sigma']), ('h_close', ['close']), ('h_sums', ['sums']), ('h_regress', ['regress']), ('h_regress_err', ['errors']), ('h_ratio', ['ratio', 'refused']), ('h_wrap', ['wrap']), ('h_mix', ['mix']), ('h_erase', ['erased']), ('h_erase_flags', ['erased'])):
    unit('C08', e, 'math.cpp', r, tus=M)
C = LOG + ['common/GExpectationChecksT.cpp', 'common/GCommonEnums.cpp', 'common/GCommonHelperFunctions.cpp']
prop('C05')
for e, r in (('h_cross_ptr', ['crossed']), ('h_cross_pod', ['crossed']), ('h_copy', ['copied']), ('h_self', ['self']), ('h_insert', ['inserted']), ('h_resize', ['resized']), ('h_erase', ['erased']), ('h_view', ['viewed']), ('h_pod', ['pod']), ('h_copyptr', ['copied']), ('h_copycont', ['copied'])):
    unit('C05', e, 'cont.cpp', r, tus=C)
prop('C06')
for e, r in (('h_f_unary', ['value', 'error']), ('h_f_binary', ['value', 'div0']), ('h_f_prec', ['value']), ('h_f_nest', ['value']), ('h_f_float', ['value']), ('h_f_bad', ['rejected']), ('h_f_ph', ['value'])):
    unit('C06', e, 'formula.cpp', r, tus=LOG + ['common/GFormulaParserT.cpp', 'common/GCommonHelperFunctions.cpp', 'common/GCommonMathHelperFunctions.cpp'])

# Geneva proper: random draws are symbolic (lib/vsrandom.hpp, lib/randstub.cpp)
RND = dict(flags=['-UGEM_TESTING', '-include', 'vsrandom.hpp'], tuflags=['-UGEM_TESTING', '-include', 'vsrandom.hpp'], lib=['randstub.cpp'])
COM = LOG + ['common/GExpectationChecksT.cpp', 'common/GCommonEnums.cpp', 'common/GCommonHelperFunctions.cpp', 'common/GCommonMathHelperFunctions.cpp']
PAR = COM + ['hap/GRandomT.cpp', 'geneva/GObject.cpp', 'geneva/GParameterBase.cpp', 'geneva/GAdaptorT.cpp', 'geneva/GOptimizationEnums.cpp', 'geneva/GenevaHelperFunctionsT.cpp', 'geneva/GDoubleGaussAdaptor.cpp', 'geneva/GInt32FlipAdaptor.cpp', 'geneva/GBooleanAdaptor.cpp']
prop('G01')
CN = PAR + ['geneva/GConstrainedDoubleObject.cpp', 'geneva/GConstrainedDoubleCollection.cpp', 'geneva/GConstrainedInt32Object.cpp']
for e, r in (('h_fp_range', ['mapped']), ('h_fp_range_t', ['mapped']), ('h_fpc_range_t', ['mapped']), ('h_fp_fold', ['folded']), ('h_fpc_range', ['mapped']), ('h_fpc_fold', ['folded']), ('h_fp_set', ['set', 'rejected']), ('h_fp_bound', ['accepted', 'rejected']), ('h_fpc_bound', ['accepted', 'rejected']), ('h_fpc_set', ['set', 'rejected']), ('h_int_range', ['mapped']), ('h_int_fold', ['folded']), ('h_int_set', ['set', 'rejected'])):
    unit('G01', e, 'constr.cpp', r, tus=CN, opts=['--feas-ms', '1'] if e in ('h_fp_range', 'h_fpc_range', 'h_fp_range_t', 'h_fpc_range_t', 'h_fp_set', 'h_fpc_set', 'h_int_range') else [], tiers=('thorough',) if e.endswith('_t') else ('quick', 'thorough'), **RND)
COU = LOG + ['common/GExpectationChecksT.cpp', 'common/GCommonEnums.cpp', 'common/GCommonHelperFunctions.cpp', 'courtier/GCourtierHelperFunctions.cpp', 'courtier/GCourtierEnums.cpp']
prop('K01')
for e, r in (('h_process', ['failed', 'processed']), ('h_status', ['done']), ('h_copy', ['copied'])):
    unit('K01', e, 'proc.cpp', r, tus=COU)
prop('K02')
unit('K02', 'h_command', 'proc.cpp', ['done'], tus=COU)
unit('K02', 'h_transfer', 'cc.cpp', ['empty', 'sent', 'returned'], tus=COU)
prop('K03')
BR = dict(tus=COU, flags=['-fno-access-control'])
for e, r in (('h_port', ['popped', 'done']), ('h_broker', ['got', 'put', 'rejected']), ('h_turn', ['done']), ('h_ids', ['again', 'done']), ('h_consumers', ['enrolled', 'done'])):
    unit('K03', e, 'brk.cpp', r, **BR)
for e in ('h_conc', 'h_wait_consumer', 'h_first'):
    unit('K03', e, 'brk.cpp', ['done'], threads=True, opts=['--preempt', '1'], **BR)
prop('K04')
EX = COU + ['common/GThreadGroup.cpp', 'common/GThreadPool.cpp', 'common/GPlotDesigner.cpp', 'common/GCommonMathHelperFunctions.cpp']
for e, r in (('h_serial', ['iteration', 'done']), ('h_serial3', ['done']), ('h_copies', ['copied'])):
    unit('K04', e, 'exec.cpp', r, tus=EX, flags=ASIO['flags'] + ['-fno-access-control'], tuflags=ASIO['tuflags'])
for e in ('h_mt_rel', 'h_serial_rel'):
    unit('K04', e, 'exec.cpp', ['done'], tus=EX, threads=e == 'h_mt_rel', opts=['--preempt', '1' if e == 'h_mt_rel' else '0'], flags=ASIO['flags'] + ['-fno-access-control', '-UDEBUG'], tuflags=ASIO['tuflags'] + ['-UDEBUG'])
for e, r, p in (('h_mt', ['done'], 1), ('h_mt2', ['done'], 1), ('h_busy', ['refused', 'done'], 2), ('h_brk_full', ['done'], 1), ('h_brk_partial', ['done', 'spoiled'], 0), ('h_brk_none', ['done'], 0), ('h_brk_timeout', ['done'], 0)):
    unit('K04', e, 'exec.cpp', r, tus=EX, threads=True, opts=['--preempt', str(p)], flags=ASIO['flags'] + ['-fno-access-control'], tuflags=ASIO['tuflags'])
# optimization algorithms: individuals with symbolic fitness
EXC = ['common/GThreadGroup.cpp', 'common/GThreadPool.cpp', 'common/GPlotDesigner.cpp', 'courtier/GCourtierHelperFunctions.cpp', 'courtier/GCourtierEnums.cpp']
PS = PAR + EXC + ['geneva/GParameterSet.cpp', 'geneva/G_Interface_Rateable.cpp', 'geneva/GPersonalityTraits.cpp', 'geneva/GenevaHelperFunctions.cpp', 'geneva/GParameterSetMultiConstraint.cpp']
OAB = PS + ['geneva/G_OptimizationAlgorithm_Base.cpp', 'geneva/GParameterSetFixedSizePriorityQueue.cpp']
OA = dict(flags=RND['flags'] + ASIO['flags'] + ['-fno-access-control'], tuflags=RND['tuflags'] + ASIO['tuflags'], lib=RND['lib'])
EAT = OAB + ['geneva/G_OptimizationAlgorithm_ParChild.cpp', 'geneva/G_OptimizationAlgorithm_ParChildT_PersonalityTraits.cpp', 'geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp', 'geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm_PersonalityTraits.cpp']
prop('A01')
for e, r in (('h_plus', ['done']), ('h_comma', ['done']), ('h_retain', ['kept', 'replaced']), ('h_pareto_plus', ['done']), ('h_pareto_comma', ['done']), ('h_dom', ['dominates']), ('h_pareto_comma2', ['done']), ('h_pareto_comma3', ['done']), ('h_fix', ['done', 'refused']), ('h_fix_large', ['done']), ('h_sanity', ['refused', 'selected']), ('h_growth', ['grown']), ('h_recombine', ['last parent'])):
    unit('A01', e, 'ea.cpp', r, tus=EAT, **OA)
unit('A01', 'h_stalls', 'ea.cpp', ['stalls'], tus=EAT + ['geneva/GDoubleObject.cpp'], **OA)
unit('A01', 'h_counts', 'ea.cpp', ['counts'], tus=EAT, **OA)
unit('A01', 'h_pareto_plus4', 'ea.cpp', ['done'], tus=EAT, tiers=('thorough',), **OA)
prop('A02')
for e, r in (('h_run', ['done']), ('h_run_stall', ['done', 'early']), ('h_run_quality', ['done', 'early'])):
    unit('A02', e, 'alg.cpp', r, tus=EAT, **OA)
for e, r, t in (('h_ea_plus', ['done'], ('quick', 'thorough')), ('h_ea_comma', ['done'], ('quick', 'thorough')), ('h_ea_err', ['failed', 'recovered', 'done'], ('quick', 'thorough')), ('h_ea_retain', ['done'], ('thorough',))):
    unit('A02', e, 'alg.cpp', r, tiers=t, tus=EAT, threads=True, opts=['--preempt', '0'], **OA)
prop('A07')
for e, r in (('h_halt', ['halt', 'go on']), ('h_halt_time', ['done']), ('h_limits', ['refused', 'accepted']), ('h_halt_touch', ['halt', 'go on'])):
    unit('A07', e, 'alg.cpp', r, tus=EAT, **OA)
prop('A08')
for e, r in (('h_policy', ['saved', 'failed', 'loaded']), ('h_again', ['done']), ('h_load', ['loaded', 'refused']), ('h_dir', ['refused', 'set'])):
    unit('A08', e, 'ckpt.cpp', r, tus=EAT, **OA)
SAT = OAB + ['geneva/G_OptimizationAlgorithm_ParChild.cpp', 'geneva/G_OptimizationAlgorithm_ParChildT_PersonalityTraits.cpp', 'geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp', 'geneva/G_OptimizationAlgorithm_SimulatedAnnealing_PersonalityTraits.cpp']
prop('A03')
for e, r in (('h_select', ['accepted', 'kept']), ('h_select2', ['accepted', 'kept']), ('h_select_late', ['accepted', 'kept']), ('h_fix', ['done', 'refused']), ('h_fix_large', ['done']), ('h_sanity', ['refused', 'selected']), ('h_settings', ['refused', 'accepted'])):
    unit('A03', e, 'sa.cpp', r, tus=SAT, **OA)
unit('A03', 'h_run', 'sa.cpp', ['done', 'worse'], tus=SAT, threads=True, opts=['--preempt', '0'], **OA)
GDT = OAB + ['geneva/GDoubleObject.cpp', 'geneva/G_OptimizationAlgorithm_GradientDescent.cpp', 'geneva/G_OptimizationAlgorithm_GradientDescent_PersonalityTraits.cpp']
prop('A05')
for e, r in (('h_pop', ['refused', 'done']), ('h_empty', ['done']), ('h_exact', ['done']), ('h_settings', ['refused', 'accepted']), ('h_run1', ['done']), ('h_run2', ['done']), ('h_run3', ['done']), ('h_course1', ['done']), ('h_course2', ['done']), ('h_course3', ['done']), ('h_err', ['failed'])):
    unit('A05', e, 'gd.cpp', r, tus=GDT, tiers=('thorough',) if e == 'h_run3' else ('quick', 'thorough'), **OA)
PST = OAB + ['geneva/GDoubleObject.cpp', 'geneva/GInt32Object.cpp', 'geneva/GBooleanObject.cpp', 'geneva/G_OptimizationAlgorithm_ParameterScan.cpp', 'geneva/G_OptimizationAlgorithm_ParameterScan_PersonalityTraits.cpp', 'geneva/GParameterPropertyParser.cpp']
prop('A06')
for e, r in (('h_fill_ends', ['done']), ('h_grid_d', ['done']), ('h_grid_i', ['done']), ('h_grid_b', ['done']), ('h_grid_mix', ['done']), ('h_grid_clone', ['clone', 'done']), ('h_random', ['done']), ('h_simple', ['done', 'again']), ('h_best', ['failed', 'done']), ('h_goon', ['done']), ('h_bad', ['refused']), ('h_fill', ['refused', 'done']), ('h_fill_int', ['done']), ('h_spec', ['parsed', 'refused']), ('h_step', ['done'])):
    unit('A06', e, 'ps.cpp', r, tus=PST, **OA)
unit('A06', 'h_config', 'ps.cpp', ['done'], tus=PST + ['common/GParserBuilder.cpp'], **OA)
SWT = OAB + ['geneva/GDoubleObject.cpp', 'geneva/GConstrainedDoubleObject.cpp', 'geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp', 'geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp']
prop('A04')
for e, r in (('h_pop', ['refused', 'complete', 'filled']), ('h_settings', ['refused', 'accepted']), ('h_prune', ['pruned', 'unchanged']), ('h_course1', ['done']), ('h_course2', ['done']), ('h_course3', ['done']), ('h_course_dims', ['done']), ('h_course_constr', ['done']), ('h_repulsion', ['repelled', 'done']), ('h_surplus', ['done']), ('h_lost', ['done', 'replaced', 'empty neighborhood']), ('h_run', ['done'])):
    unit('A04', e, 'sw.cpp', r, tus=SWT, **OA)
unit('A04', 'h_course2d', 'sw.cpp', ['done'], tus=SWT, tiers=('thorough',), **OA)
CFG = LOG + ['common/GParserBuilder.cpp', 'common/GCommonHelperFunctions.cpp', 'common/GCommonEnums.cpp']
prop('C10')
for e, r in (('h_scalar', ['done']), ('h_list', ['done']), ('h_default_s', ['done']), ('h_default_l', ['done']), ('h_rewrite', ['done']), ('h_essential', ['written', 'left out']), ('h_reset', ['created', 'missing']), ('h_refuse', ['done']), ('h_fail', ['done']), ('h_dup', ['done']), ('h_object', ['done']), ('h_once', ['done'])):
    unit('C10', e, 'cfg.cpp', r, tus=CFG, **OA)
GPT = PS + ['common/GFormulaParserT.cpp', 'geneva/GDoubleObject.cpp', 'geneva/GInt32Object.cpp', 'geneva/GBooleanObject.cpp', 'geneva/GConstrainedDoubleObject.cpp', 'geneva/GIndividualMultiConstraint.cpp', 'common/GCommonMathHelperFunctions.cpp']
prop('G09')
for e, r in (('h_process', ['failed', 'evaluated', 'invalid']), ('h_invalid_worse', ['valid', 'invalid']), ('h_sigmoid', ['done']), ('h_dirty', ['changed', 'unchanged']), ('h_adapt', ['changed', 'unchanged']), ('h_cross', ['late', 'early', 'single', 'one type']), ('h_cannibalize', ['refused', 'done']), ('h_good', ['done']), ('h_combiners', ['done']), ('h_settings', ['refused', 'accepted'])):
    unit('G09', e, 'gps.cpp', r, tus=GPT, **OA)
prop('G10')
for e, r in (('h_check', ['valid', 'invalid']), ('h_combine', ['valid', 'invalid']), ('h_combine_full', ['valid', 'invalid']), ('h_formula', ['valid', 'invalid'])):
    unit('G10', e, 'gps.cpp', r, tus=GPT, **OA)
prop('G07')
GPA = GPT + ['geneva/GDoubleBiGaussAdaptor.cpp', 'geneva/GInt32GaussAdaptor.cpp']
CP = ['copy', 'clone', 'load', 'reload']
for e in ('h_gauss', 'h_bigauss', 'h_intgauss', 'h_flip', 'h_bool'):
    unit('G07', e, 'cpa.cpp', CP, tus=GPA, **OA)
GPP = GPA + ['geneva/%s.cpp' % x for x in ('GConstrainedInt32Object', 'GDoubleCollection', 'GConstrainedDoubleCollection', 'GInt32Collection', 'GBooleanCollection', 'GDoubleObjectCollection', 'GConstrainedDoubleObjectCollection', 'GInt32ObjectCollection', 'GConstrainedInt32ObjectCollection', 'GBooleanObjectCollection', 'GParameterObjectCollection')]
for e in ('h_double', 'h_cdouble', 'h_int', 'h_cint', 'h_boolean', 'h_doublecol', 'h_cdoublecol', 'h_intcol', 'h_boolcol', 'h_dobjcol', 'h_cdobjcol', 'h_iobjcol', 'h_ciobjcol', 'h_bobjcol', 'h_nested'):
    unit('G07', e, 'cpp.cpp', CP, tus=GPP, **OA)
GPI = GPP + ['geneva/G_OptimizationAlgorithm_%s_PersonalityTraits.cpp' % x for x in ('EvolutionaryAlgorithm', 'GradientDescent', 'ParChildT', 'ParameterScan', 'SimulatedAnnealing', 'SwarmAlgorithm')] + ['geneva-individuals/GFunctionIndividual.cpp']
for e in ('h_ind', 'h_ind_user', 'h_func', 'h_csum', 'h_cgap', 'h_csphere', 'h_cformula', 'h_ccomb', 'h_constr_user', 'h_tea', 'h_tgd', 'h_tsa', 'h_tps', 'h_tsw'):
    unit('G07', e, 'cps.cpp', CP if e != 'h_constr_user' else CP[1:], tus=GPI, **OA)
prop('K05')
CPO = list(dict.fromkeys(EAT + SAT + GDT + PST + SWT + ['geneva/GPluggableOptimizationMonitors.cpp']))
for e in ('h_ea', 'h_sa', 'h_gd', 'h_sw', 'h_ps', 'h_ea_full', 'h_gd_full', 'h_sw_full', 'h_ps_full', 'h_ea_user', 'h_sa_user', 'h_gd_user', 'h_sw_user', 'h_ps_user'):
    unit('K05', e, 'cpo.cpp', CP, tus=CPO, **OA)
CPM = OAB + ['geneva/GPluggableOptimizationMonitors.cpp']
for e in ('h_std', 'h_fit', 'h_coll', 'h_prog', 'h_prog_empty', 'h_all', 'h_iter', 'h_nadp', 'h_adprop', 'h_times', 'h_graph2', 'h_graph2e', 'h_graph3', 'h_graph4', 'h_hist1', 'h_hist1i', 'h_hist2', 'h_func1', 'h_func2', 'h_designer'):
    unit('K05', e, 'cpm.cpp', CP, tus=CPM, **OA)
CPI = GPI + ['geneva-individuals/%s.cpp' % x for x in ('GNeuralNetworkIndividual', 'GExternalEvaluatorIndividual', 'GDelayIndividual', 'GLineFitIndividual')]
for e in ('h_ext', 'h_nn', 'h_line', 'h_fun', 'h_delay'):
    unit('G07', e, 'cpi.cpp', CP, tus=CPI, **OA)
prop('G04')
ADT = list(dict.fromkeys(GPA + ["geneva/GDoubleCollection.cpp", "geneva/GInt32FlipAdaptor.cpp"]))
for e, r in (('h_prob_gauss', ['refused', 'range', 'done']), ('h_prob_bigauss', ['refused', 'range', 'done']), ('h_prob_int', ['refused', 'range', 'done']), ('h_prob_flip', ['refused', 'range', 'done']), ('h_prob_bool', ['refused', 'range', 'done']), ('h_sigma', ['refused', 'done']), ('h_sigma_int', ['refused', 'done']), ('h_sigma_all', ['accepted', 'done']), ('h_bi', ['refused', 'done']), ('h_bi_all', ['done']), ('h_mode_gauss', ['done']), ('h_mode_bigauss', ['done']), ('h_mode_int', ['done']), ('h_mode_flip', ['done']), ('h_mode_bool', ['done']), ('h_adprob', ['constant', 'adapted']), ('h_adprob_flip', ['constant', 'adapted']), ('h_gauss', ['done']), ('h_gauss_value', ['done']), ('h_bigauss', ['done']), ('h_int', ['drawn', 'minimal']), ('h_flip', ['done']), ('h_stall', ['done']), ('h_init', ['done']), ('h_query', ['done']), ('h_own', ['done'])):
    unit('G04', e, 'adp.cpp', r, tus=ADT, **OA)
prop('G06')
for k, t in (('d', 'd'), ('cd', 'd'), ('i', 'i'), ('ci', 'i'), ('b', 'b'), ('dc', 'd'), ('cdc', 'd'), ('ic', 'i'), ('bc', 'b'), ('doc', 'd'), ('cdoc', 'd'), ('ioc', 'i'), ('cioc', 'i'), ('boc', 'b'), ('poc', 'x')):
    unit('G06', 'h_%s_init' % k, 'par.cpp', ['initialized'], tus=GPP, **OA)
    for n, l in (('double', 'd'), ('int', 'i'), ('bool', 'b')):
        unit('G06', 'h_%s_%s' % (k, n), 'par.cpp', ['extracted', 'refused', 'assigned'] + (['computed', 'scaled'] if l != 'b' else []), tus=GPP, tiers=['quick', 'thorough'] if t in (l, 'x') else ['thorough'], **OA)
prop('H02')
HAP = dict(flags=['-UGEM_TESTING', '-include', 'vshap.hpp', '-fno-access-control', '-DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_ARRAY_SIZE=2', '-DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_BUFFER_SIZE=2', '-DGENEVA_HAP_RANDOM_FACTORY_SEED_VECTOR_SIZE=2'])
HAP['tuflags'] = HAP['flags']
for e, o in (('h_proxy', 0), ('h_consumers', 1), ('h_producers2', 1), ('h_threads', 0), ('h_start_race', 1), ('h_start2', 2), ('h_seeds', 3), ('h_local', 0), ('h_package', 1)):
    unit('H02', e, 'hap.cpp', ['done'], tus=LOG + ['hap/GRandomFactory.cpp', 'hap/GRandomBase.cpp', 'hap/GRandomT.cpp', 'common/GThreadGroup.cpp'], threads=True, opts=['--preempt', str(o), '--timeouts', '2'], **HAP)
prop('C09')
for e in ('h_double', 'h_float', 'h_int', 'h_bool', 'h_string', 'h_tribool', 'h_time', 'h_vec_double', 'h_list_double', 'h_vec_int', 'h_vec_string', 'h_set_int', 'h_set_double', 'h_object', 'h_pointer', 'h_pointers', 'h_token'):
    unit('C09', e, 'cmp.cpp', ['done'] if e == 'h_token' else ['met', 'not met'] + (['operators'] if e == 'h_object' else []), tus=GPA, **OA)
prop('C07')
for e, r in (('h_uints', ['list', 'refused']), ('h_uints_long', ['list', 'refused']), ('h_uints_sep', ['list', 'refused']), ('h_uints_limit', ['list', 'refused']), ('h_doubles_precise', ['precise']), ('h_tuples', ['list', 'refused']), ('h_doubles', ['list', 'refused']), ('h_duration', ['duration', 'refused']), ('h_split', ['empty', 'fragments']), ('h_split_long', ['empty', 'fragments']), ('h_split_types', ['done']), ('h_enum', ['done'])):
    unit('C07', e, 'str.cpp', r, tus=LOG + ['common/GCommonHelperFunctions.cpp', 'common/GCommonEnums.cpp', 'courtier/GCourtierEnums.cpp', 'geneva/GOptimizationEnums.cpp', 'hap/GHapEnums.cpp'], **OA)
