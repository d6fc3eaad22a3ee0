"""what each property is decided by"""
GROUPS = {
    'int': dict(preludes=['prelude_base.rs'], contracts=['num.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len']),
    'num': dict(preludes=['prelude_base.rs'], contracts=['num.vc', 'rat.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len']),
    'numa': dict(preludes=['prelude_base.rs'], contracts=['num.vc', 'rat.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len'], inst='ari'),
    'numc': dict(preludes=['prelude_base.rs'], contracts=['num.vc', 'rat.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len'], inst='cmp'),
    'disp': dict(preludes=['prelude_base.rs', 'prelude_frat.rs', 'prelude_disp.rs'], contracts=['num.vc', 'rat.vc', 'mdeg.vc', 'disp.vc', 'dispr.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len'], broadcast_fn=['cat_facts'], inst='used'),
    'dispo': dict(preludes=['prelude_base.rs', 'prelude_disp.rs', 'prelude_fany.rs'], contracts=['mdeg.vc', 'disp.vc', 'dispo.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len'], broadcast_fn=['cat_facts', 'ax_units'], any=True),
    'mat': dict(preludes=['prelude_base.rs', 'prelude_field.rs'], contracts=['real.vc', 'mat.vc', 'lin.vc', 'util.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len', 'field_axioms'],
                broadcast_raw=['at_ix', 'seq_flat_box', 'mu_facts']),
    'cone': dict(preludes=['prelude_base.rs', 'prelude_field.rs'], contracts=['real.vc', 'mat.vc', 'lin.vc', 'cone.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len', 'field_axioms'],
                 broadcast_raw=['at_ix', 'seq_flat_box', 'mu_facts']),
    'poly': dict(preludes=['prelude_base.rs', 'prelude_field.rs'], contracts=['real.vc', 'mdeg.vc', 'poly.vc', 'comp.vc', 'gb.vc', 'div.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len', 'field_axioms'],
                 broadcast_raw=['mu_facts', 'lf_short']),
    'gb': dict(preludes=['prelude_base.rs', 'prelude_field.rs'], contracts=['real.vc', 'mdeg.vc', 'poly.vc', 'comp.vc', 'gb.vc', 'div.vc', 'ideal.vc', 'buch.vc', 'gbt.vc', 'gbd.vc', 'bb.vc', 'gbs.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len', 'field_axioms'],
               broadcast_raw=['mu_facts', 'lf_short']),
    'mdeg': dict(preludes=['prelude_base.rs'], contracts=['mdeg.vc'], broadcast=['ax_vec_deref_spec', 'ax_vec_len']),
}

INT = ['sgn', 'is_pos', 'is_neg', 'abs', 'pow', 'gcd', 'lcm', 'From__i64__from', 'Add__add', 'Sub__sub', 'Mul__mul', 'Div__div',
       'Rem__rem', 'Neg__neg', 'Zero__is_zero', 'One__is_one', 'Zero__ZERO', 'One__ONE', 'PartialEq__eq', 'Clone__clone',
       'Default__default', 'Ord__cmp', 'PartialOrd__partial_cmp']
RAT = ['new_unchecked', 'new', 'new_i64', 'new_int', 'From__Integer__from', 'Zero__ZERO', 'One__ONE', 'PartialEq__eq',
       'Clone__clone', 'recip', 'Field__inv', 'pow', 'powi', 'Field__powi32', 'Add__add', 'Sub__sub', 'Mul__mul', 'Div__div',
       'Neg__neg', 'AddAssign__add_assign', 'SubAssign__sub_assign', 'MulAssign__mul_assign', 'DivAssign__div_assign',
       'Sum__sum', 'Product__product']
P = lambda t, l: [t + '__' + x for x in l]

ARITH = 'i64/u8/usize arithmetic panics on overflow (the tests and this repository build with overflow checks); a call that ' \
        'overflows has no result and the contracts say nothing about it (partial correctness)'
STD = 'std and itertools functions are replaced by the reference implementations of vc/prelude_*.rs, each verified against its contract; ' \
      'that the real ones behave like these is assumed (external without body: panics, Clone of values)'
TOOL = 'thirdump/translate.py renders rustc THIR of /repo as Verus text one construct at a time; a construct outside the map ' \
       'makes the function undecided'
REAL = 'an exact field is any type whose operations meet the interface of vc/prelude_field.rs (those of a subfield of the reals, F embeds in R); ' \
       'that Rational meets it, operation by operation and axiom by axiom, is proved in the checks of C02 and C03 (vc/inst.py)'

PROPS = {
    'C01': dict(group='num', feature='num', roots=P('Rational', RAT), lemmas=['C01_equal_iff_same_number', 'simplest_unique'],
                assume=[ARITH, STD, TOOL, 'exponent of Rational::pow in u32 range; powi exponent above i32::MIN']),
    'C02': dict(group='numa', feature='num', roots=P('Rational', RAT + ['Zero__is_zero', 'One__is_one']), lemmas=['frac_add', 'frac_mul', 'frac_inv', 'frac_pow'],
                assume=[ARITH, STD, TOOL, 'exponent of Rational::pow in u32 range; powi exponent above i32::MIN']),
    'C03': dict(group='numc', feature='num', roots=P('Rational', ['Ord__cmp', 'PartialOrd__partial_cmp', 'PartialEq__eq', 'sgn',
                'StabilityCmp__stability_cmp', 'EpsilonEquality__epsilon_equals']), lemmas=['frac_lt', 'stabkey_cmp', 'C01_equal_iff_same_number'],
                assume=[ARITH, STD, TOOL]),
    'C04': dict(group='int', feature='num', roots=P('Integer', INT), lemmas=['bezout_ex', 'euclid_step', 'lcm_of_gcd'],
                assume=[ARITH, STD, TOOL, 'exponent of Integer::pow in u32 range']),
}

MAT_ARITH = ['Mat__Add__add', 'rMat__Add__add', 'Mat__Add__rMat__add', 'rMat__Add__Mat__add', 'Mat__Mul__mul', 'rMat__Mul__mul',
             'Mat__Mul__rMat__mul', 'rMat__Mul__Mat__mul', 'Mat__Mul__F__mul', 'rMat__Mul__F__mul', 'Mat__MulAssign__F__mul_assign',
             'Mat__scale', 'Mat__transpose', 'Mat__dot', 'Mat__frobenius_norm', 'Mat__is_upper_triangular', 'Mat__is_lower_triangular',
             'Mat__EpsilonEquality__epsilon_equals', 'Mat__PartialEq__eq', 'Mat__Clone__clone', 'Mat__rows', 'Mat__cols']
MAT_BUILD = ['get_box_iter', 'Mat__new', 'Mat__rows', 'Mat__cols', 'Mat__entries', 'Mat__get_unchecked', 'Mat__Index__Tusize_usize__index',
             'Mat__get_mut_unchecked', 'Mat__IndexMut__Tusize_usize__index_mut', 'Mat__identity', 'Mat__zero', 'Mat__e',
             'Mat__from_col_vectors', 'Mat__from_row_vectors', 'Mat__scale_mat', 'Mat__permutation', 'Mat__permutation_from_vec',
             'Mat__replacement', 'Mat__get_row_iter', 'Mat__get_row', 'Mat__get_col_iter', 'Mat__get_col', 'Mat__From__I__from',
             'Mat__index_iter', 'Mat__get_row_iter_mut', 'Mat__get_col_iter_mut', 'Mat__swap']
MAT_ROW = ['Mat__scale_row', 'Mat__permute_rows', 'Mat__replace_row', 'Mat__swap', 'Mat__scale_mat', 'Mat__permutation', 'Mat__replacement',
           'rMat__Mul__mul']
LU = ['get_max_index', 'Mat__get_stable_column_index_under_row', 'Mat__permute_under_diagonal', 'LUDecompositionInternal__permute',
      'LUDecompositionInternal__scale_row', 'LUDecompositionInternal__replace_col_under_row', 'Mat__lu', 'Mat__permutation_from_vec',
      'rMat__Mul__mul']
MATA = [ARITH, STD, TOOL, REAL]
PROPS.update({
    'C05': dict(group='mat', feature='mat', roots=MAT_ARITH, lemmas=[], assume=MATA),
    'C06': dict(group='mat', feature='mat', roots=MAT_BUILD, lemmas=[], assume=MATA),
    'C07': dict(group='mat', feature='mat', roots=MAT_ROW, lemmas=['C07_swap_is_elementary', 'C07_scale_is_elementary', 'C07_replace_is_elementary'], assume=MATA),
    'C08': dict(group='mat', feature='mat', roots=LU, lemmas=['lu_start', 'lu_permute', 'lu_scale', 'lu_replace', 'lu_finish', 'ech_replace'], assume=MATA),
})

PROPS.update({
    'C24': dict(group='mat', feature='mat', roots=['get_box_iter', 'Mat__index_iter', 'get_max_index', 'num_to_seq', 'BaseSeqIterator__Iterator__next', 'mat_iterator', 'MatIterator__Iterator__next'],
                lemmas=['C24_digits', 'C24_digits_only', 'C24_all', 'C24_once', 'dig_digits', 'digits_len'], assume=MATA + [
                    'base at least 2 (or n = 0); nonempty list of values and rows * cols within u32; an iterator is used through next() until it returns None']),
})

PROPS.update({
    'C25': dict(group='cone', feature='mat', roots=['Cone__new'], scale=40,
                lemmas=['full_rank', 'join_indep', 'gens_orth', 'cone_choice', 'cone_normal', 'normal_neg', 'cone_sides', 'dots_dotp', 'listed_more', 'C10_rank_bounds'], assume=MATA + [
                    'column vectors of one length, not all zero; itertools::combinations lists all choices of positions in increasing order']),
})

ECH = ['get_max_index', 'Mat__get_stable_column_index_under_row', 'RowEquivalentForm__permute_rows', 'RowEquivalentForm__scale_row',
       'RowEquivalentForm__replace_col_under_row', 'RowEquivalentForm__replace_col_above_row', 'Mat__row_echelon',
       'RowEquivalentForm__to_rref', 'Mat__identity']
PROPS.update({
    'C09': dict(group='mat', feature='mat', roots=ECH, lemmas=['rq_swap', 'rq_scale', 'rq_repl', 'ech_replace', 'red_zero', 'ech_first'], assume=MATA),
    'C10': dict(group='mat', feature='mat', roots=ECH + ['Mat__zero_rows', 'RowEquivalentForm__rank', 'RowEquivalentForm__nullity'],
                lemmas=['C10_rank_bounds', 'C10_rows_independent', 'C10_row_space', 'prod_recover'], assume=MATA),
    'C11': dict(group='mat', feature='mat', roots=ECH + ['Mat__index_of_first_nonzero_entry', 'RowEquivalentForm__compute_kernel'],
                lemmas=['kvec_killed', 'kernel_basis', 'kernel_span'], assume=MATA),
    'C12': dict(group='mat', feature='mat', roots=ECH + ['Mat__index_of_first_nonzero_entry', 'RowEquivalentForm__compute_range', 'Mat__get_col'],
                lemmas=['range_px', 'range_one', 'range_basis', 'range_span'], assume=MATA),
})

MDEG = ['MultiDegree__' + x for x in ['zero', 'new', 'Default__default', 'is_zero', 'degs', 'degs_mut', 'len', 'Clone__clone', 'PartialEq__eq', 'trim_zeros',
        'from_vec', 'var', 'is_succ', 'checked_sub', 'Add__add', 'Add__rMultiDegree__add']] + ['rMultiDegree__Add__add', 'rMultiDegree__Add__MultiDegree__add']
ORDS = [o + '__MonomialOrder__cmp' for o in ['Lex', 'RevLex', 'GrLex', 'GRevLex']]
PROPS.update({
    'C13': dict(group='mdeg', feature='poly', roots=MDEG, lemmas=['C13_sub_undoes_add', 'C13_dvd_add', 'C13_eq_is_equal_exponents', 'madd_mono', 'canon_ext'],
                assume=[ARITH, STD, TOOL, 'multidegrees passed in by the caller are canonical (the constructors make them so; the public field can be set to anything)', 'MultiDegree::var is called with an index below usize::MAX']),
    'C14': dict(group='mdeg', feature='poly', roots=ORDS + ['grad', 'MultiDegree__total_deg'], lemmas=['C14_lex', 'C14_revlex', 'C14_grlex', 'C14_grevlex'],
                assume=[ARITH, STD, TOOL, 'multidegrees passed in by the caller are canonical; the sum of all exponents of one multidegree fits usize']),
})

TERM = ['Term__' + x for x in ['new_unchecked', 'new', 'constant_unchecked', 'zero', 'one', 'is_zero', 'monic', 'var', 'divides', 'try_div', 'Clone__clone', 'PartialEq__eq',
        'Default__default', 'From__F__from', 'Mul__mul', 'Mul__rTerm__mul']] + ['rTerm__Mul__mul', 'rTerm__Mul__Term__mul', 'Computer__monic_lcm']
PCON = ['Polynomial__' + x for x in ['new_unchecked', 'new', 'zero', 'is_zero', 'term_unchecked', 'constant_unchecked', 'var', 'one', 'terms', 'terms_mut', 'Clone__clone',
        'Default__default', 'From__F__from', 'From__Term__from', 'From__rTerm__from']]
def _ops():
    out = []
    for op in ['Add', 'Sub']:
        for a in ['Term', 'rTerm', 'Polynomial', 'rPolynomial']:
            for b in ['Term', 'rTerm', 'Polynomial', 'rPolynomial']:
                out.append('%s__%s__%s' % (a, op, op.lower()) if a == b else '%s__%s__%s__%s' % (a, op, b, op.lower()))
    for a, b in [('Polynomial', 'F'), ('rPolynomial', 'F'), ('rPolynomial', 'rTerm'), ('rPolynomial', 'Term'), ('Polynomial', 'rTerm'), ('Polynomial', 'Term'),
                 ('rTerm', 'rPolynomial'), ('rTerm', 'Polynomial'), ('Term', 'rPolynomial'), ('Term', 'Polynomial'), ('rPolynomial', 'rPolynomial'),
                 ('rPolynomial', 'Polynomial'), ('Polynomial', 'rPolynomial'), ('Polynomial', 'Polynomial')]:
        out.append('%s__Mul__mul' % a if a == b else '%s__Mul__%s__mul' % (a, b))
    return out + ['Polynomial__Div__F__div', 'rPolynomial__Div__F__div', 'Polynomial__Neg__neg', 'rPolynomial__Neg__neg', 'Term__Neg__neg', 'rTerm__Neg__neg']


POPS = _ops()
CLEAN = 'polynomials passed in by the caller are clean and their multidegrees canonical (the constructors and operators keep them so; the public fields can be set to anything)'
ORDER = 'the order is a MonomialOrder that meets the trait\'s laws on canonical multidegrees (is_mono_order; C14 proves it for Lex, RevLex, GrLex and GRevLex)'
POLA = [ARITH, STD, TOOL, REAL, CLEAN]
PROPS.update({
    'C15': dict(group='poly', feature='poly', roots=TERM + ['Polynomial__zero'], lemmas=['C15_lcm_is_least', 'is_sub_add', 'madd_mono', 'mmax_ok'], assume=POLA),
    'C16': dict(group='poly', feature='poly', roots=PCON + POPS + ['Computer__sort_terms', 'Computer__divide'], lemmas=['C16_zero_iff_no_terms', 'add_update', 'add_push', 'filter_ok', 'scaled_ok', 'neg_ok'], assume=POLA + [ORDER]),
    'C17': dict(group='poly', feature='poly', roots=PCON + POPS, lemmas=['cf_at', 'cf_absent', 'lf_shift', 'lf_w', 'conv_term', 'neg_ok'], assume=POLA),
    'C18': dict(group='poly', feature='poly', roots=['Term__eval', 'Polynomial__eval'] + PCON + POPS, lemmas=['C18_product', 'wx_madd', 'rpow_add', 'rsum_lf'], assume=POLA),
    'C21': dict(group='poly', feature='poly', roots=['Computer__try_reduce', 'Computer__leading_term', 'Computer__monic_lcm', 'Term__try_div', 'Term__Mul__rPolynomial__mul', 'Polynomial__Sub__sub'],
                lemmas=['C21_cancel', 'ind_shift', 'ind_absent', 'spol_hint', 'lt_ok', 'msub_ok', 'mmax_ok'], assume=POLA + [ORDER]),
    'C20': dict(group='poly', feature='poly', roots=['Computer__divide', 'Computer__leading_term', 'Term__try_div', 'Term__Mul__rPolynomial__mul', 'Polynomial__Sub__sub', 'rPolynomial__Add__rTerm__add',
                                                      'Polynomial__Add__Term__add'],
                lemmas=['div_start', 'div_red', 'div_rem', 'red_step', 'dsum_add', 'todo_less', 'lst_has', 'lt_ok'], assume=POLA + [ORDER]),
    'C19': dict(group='poly', feature='poly', roots=['Computer__leading_term', 'Computer__leading_coef', 'Computer__sort_terms', 'Polynomial__zero'], lemmas=['lt_exists', 'lt_unique', 'lt_ok', 'perm_clean', 'sort_refs'], assume=POLA + [ORDER]),
})

BB = ['Computer__' + x for x in ['buchberger_criterion', 'buchberger_extend', 'buchberger_minimize', 'buchberger_reduce', 'buchberger_algorithm', 'divide', 'try_reduce',
                                'leading_term', 'leading_coef']] + ['Term__divides', 'Term__try_div', 'rPolynomial__Div__F__div', 'Polynomial__terms', 'Polynomial__is_zero']
GENS = 'the generators are nonzero (a zero generator makes these functions panic)'
PROPS.update({
    'C22': dict(group='gb', feature='poly', roots=['Computer__buchberger_criterion', 'Computer__divide', 'Computer__try_reduce', 'Polynomial__is_zero'],
                lemmas=['dickson', 'well_order', 'buchberger', 'all_done', 'rem_not_gb', 'zero_pair', 'gb_rem_zero', 'C22_as_stated'], assume=POLA + [ORDER, GENS], scale=40),
    'C23': dict(group='gb', feature='poly', roots=BB[1:],
                lemmas=['buchberger', 'ext_push', 'lower_gb', 'drop_gb', 'rem_lead', 'rep_left', 'rep_gb', 'scaled_all', 'cover_gb', 'C23_as_stated', 'C23_unique'], assume=POLA + [ORDER, GENS], scale=40),
    'C28': dict(group='gb', feature='poly', roots=BB[1:],
                lemmas=['dickson', 'todo_less', 'ext_push', 'cnt_lt', 'rep_left', 'nb_remove'], assume=POLA + [ORDER, GENS, 'std functions and field operations return']),
})

DISP = ['superscript', 'MultiDegree__write_var', 'MultiDegree__Display__fmt', 'Term__Display__fmt']
PROPS.update({
    'C26': dict(group='disp', feature='poly', roots=['Integer__Display__fmt', 'Rational__Display__fmt', 'Polynomial_Rational__Display__fmt'] + DISP,
                also=[('dispo', DISP + ['Polynomial_f64__Display__fmt', 'Mat__Display__fmt'])],
                lemmas=['C26_superscript_reads_back', 'C26_number_reads_back', 'C26_multidegree_reads_back', 'C26_term_reads_back', 'C26_polynomial_reads_back'],
                assume=[ARITH, STD, TOOL, 'default formatting options ({} and {:?}); a Formatter is the text written so far and a writer below that may refuse a write',
                        'the texts of f64 and of matrix entries are whatever their own Display / Debug writes; reading back is proved for coefficients that are rationals',
                        'coefficients in lowest terms; for reading back also clean polynomials and canonical multidegrees']),
})

BOUNDED = 'Bounded stand-in, never counted as proof: the real functions run on exhaustive small inputs and seeded random ones ' \
          '(bounds in harness/src) against an independent oracle; the contracts for these functions are not discharged yet.'
for _p, _f in [('C05', 'mat'), ('C06', 'mat'), ('C07', 'mat'), ('C08', 'mat'), ('C09', 'mat'), ('C10', 'mat'), ('C11', 'mat'),
               ('C12', 'mat'), ('C24', 'mat'), ('C25', 'mat'), ('C13', 'poly'), ('C14', 'poly'), ('C15', 'poly'), ('C16', 'poly'),
               ('C17', 'poly'), ('C18', 'poly'), ('C19', 'poly'), ('C20', 'poly'), ('C21', 'poly'), ('C22', 'poly'), ('C23', 'poly')]:
    if _p not in PROPS:
        PROPS[_p] = dict(group=None, feature=_f, roots=[], assume=[REAL], level='exploration', note=BOUNDED,
                         technique='bounded check of the real functions against their contracts (stand-in)', explain=BOUNDED)

NOT_APPLICABLE = {
    'C27': 'bounds on accumulated rounding error need a theory of floating-point error; Verus/Z3 treat f32/f64 operations as '
           'uninterpreted, so no contract within reach states the bound',
}
HOOK_COMMITS = ['00d3054']
