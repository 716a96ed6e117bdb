"""What each property is made of: the contracted functions that state it (regexes over extracted
names), and the lemmas that state it over those contracts."""
PROPS = {}


def prop(pid, title, roots, theorems, assumptions=()):
    PROPS[pid] = dict(title=title, roots=roots, theorems=theorems, assumptions=list(assumptions))


prop('B01', 'bounds', [r'Bound_.*'], ['lemma_B01_pointwise', 'lemma_B01_lattice'])
prop('R01', 'raw interval construction and membership',
     [r'RawInterval_(new|open|left_open|right_open|closed|contains|lower_bound|upper_bound|infimum|supremum|is_empty|is_full|Clone_clone)'], ['prop_R01'])
prop('R02', 'raw intersection', [r'RawInterval_intersects?'], ['lemma_inter', 'prop_R02'])
prop('R03', 'raw enclosure', [r'RawInterval_(enclose|closure)'], ['lemma_hull', 'lemma_hull_least', 'prop_R03'])
prop('R04', 'raw complement and difference', [r'RawInterval_(complement|minus)'], ['lemma_comp', 'lemma_diff', 'prop_R04'])
prop('R05', 'raw union', [r'RawInterval_(union|is_adjacent_to)'], ['lemma_union2', 'prop_R05'])
prop('R06', 'raw bulk operations', [r'RawInterval_(enclose|intersect|union)_all'], ['lemma_fold_hull', 'lemma_fold_inter', 'prop_R06'])
prop('R07', 'raw interval notation', [r'RawInterval_(Display_fmt|FromStr_from_str|new)'], ['lemma_text', 'lemma_round', 'prop_R07'],
     ['the texts of point values read back as those values and contain no comma, infinity sign or empty-set sign, and no accepted text of a point contains a comma (`text_ok`)'])
prop('N01', 'normal forms', [r'RawInterval_Normalize_.*'], ['lemma_norm', 'lemma_denorm', 'lemma_canr_eq', 'prop_N01'])
prop('N02', 'integer point types', [r'[iu](8|16|32|64|128|size)_Finite_.*'], ['prop_N02'])
prop('I01', 'interval construction', [r'Interval_(new|empty|point|open|left_open|right_open|closed|left_closed|right_closed|unbounded_.*|full|contains|Default_default|From_.*)'], ['lemma_norm', 'prop_I01'])
prop('I02', 'interval canonical form', [r'Interval_(new|empty|point|open|left_open|right_open|closed|left_closed|right_closed|unbounded_.*|full|From_.*|PartialEq_eq|Clone_clone|into_non_empty|is_empty|complement|intersect|union|minus|enclose|closure)'], ['lemma_canr_eq', 'prop_I02'])
prop('I03', 'interval intersection and enclosure', [r'Interval_(intersects?|enclose|closure)'], ['lemma_canr_ops', 'prop_I03'])
prop('I04', 'interval union, difference, complement', [r'Interval_(union|minus|complement)'], ['lemma_comp_n', 'lemma_diff_n', 'lemma_union_n', 'prop_I04'])
prop('I05', 'interval point iteration', [r'Interval_iter', r'Interval_IntoIterator_into_iter', r'ref_Interval_IntoIterator_into_iter', r'interval_Iter_.*'], ['lemma_pop', 'prop_I05'])
prop('I06', 'interval accessors', [r'Interval_(lower_bound|upper_bound|infimum|supremum|size|is_.*|contains)'], ['lemma_ends', 'prop_I06'])

prop('T01', 'tree union', [r'TineTree_union.*', r'TineTree_(interior|exterior)_split.*', r'Tine_union'], ['prop_T01', 'lemma_span', 'lemma_point_op', 'lemma_cover'])
prop('T02', 'tree intersection', [r'TineTree_intersect.*', r'TineTree_(interior|exterior)_split.*', r'Tine_intersect'], ['prop_T02', 'lemma_meet', 'lemma_cover'])
prop('T03', 'tree difference', [r'TineTree_minus.*', r'TineTree_(interior|exterior)_split.*', r'Tine_minus'], ['prop_T03', 'lemma_span', 'lemma_point_op', 'lemma_cover'])
prop('T04', 'tree complement', [r'TineTree_complement', r'Tine_invert'], ['prop_T04', 'lemma_comp_seq'])
prop('T05', 'canonical trees', [r'TineTree_(new|Default_default|Clone_clone|from_raw_interval|From_.*|FromIterator_.*|complement|union_in_place|minus_in_place|intersect_in_place|union|minus|intersect)'], ['lemma_determined', 'prop_T05'])
prop('T06', 'tree interval iteration', [r'TineTree_(interval_iter|IntoIterator_into_iter|.*IntoIterator.*)', r'tine_tree_(Iter|IntoIter)_.*'], ['lemma_cover', 'lemma_step_front', 'lemma_step_back', 'prop_T06'])
prop('T07', 'tree queries', [r'TineTree_(contains|is_empty|is_full|lower_bound|upper_bound|enclose|closure)'], ['lemma_enc', 'prop_T07'])
_S = r'Selection_(new|Default_default|empty|full|Clone_clone|From.*|Extend.*|from_tree|complement|intersect|union|minus|.*_in_place)'
prop('S01', 'selection union and collection', [r'Selection_(union|union_in_place|Extend.*|From.*)'], ['lemma_canon_or', 'lemma_canon_add', 'prop_S01', 'prop_S01_order'])
prop('S02', 'selection intersection', [r'Selection_(intersects?|intersect_in_place|from_tree)'], ['lemma_from_tree', 'prop_S02'])
prop('S03', 'selection difference', [r'Selection_(minus|minus_in_place|from_tree)'], ['lemma_from_tree', 'prop_S03'])
prop('S04', 'selection complement', [r'Selection_(complement|from_tree|union|intersects?|is_full)'], ['lemma_from_tree', 'prop_S04'])
prop('S05', 'canonical selections', [_S, r'Selection_(PartialEq_eq|is_empty|is_full)'], ['lemma_canon_eq', 'lemma_canon_ends', 'prop_S05'])
prop('S06', 'selection interval iteration', [r'Selection_(interval_iter|into_interval_iter)', r'(IntervalIter|IntoIntervalIter)_.*'], ['lemma_canon_parts', 'prop_S06'])
prop('S07', 'selection point iteration', [r'Selection_(iter|IntoIterator_into_iter)', r'ref_Selection_IntoIterator_into_iter', r'selection_(Iter|IntoIter)_.*'], ['lemma_sel_start', 'lemma_sel_front', 'lemma_sel_back', 'prop_S07'])
prop('S08', 'selection extent', [r'Selection_(lower_bound|upper_bound|infimum|supremum|is_.*|contains|enclose|closure)'], ['lemma_sel_ends', 'prop_S08'])
prop('P01', 'no panic, no overflow, termination', [r'.*'], [])

TRUSTED = [
    'contracts/prelude.rs, assumed: T is totally ordered with == agreeing with the order, Clone returns an equal value, Default and Sub (used by size) are functions of the value, Borrow keeps the value',
    'contracts/prelude.rs, assumed of a type implementing Finite: pred/succ adjacent and inverse, MINIMUM/MAXIMUM extreme (for the integer types this is what N02 proves)',
    'contracts/prelude.rs, assumed of core::fmt and str: a write appends the text of its arguments in template order; Display and FromStr of a point type are functions of the value and of the text; str::len; string literals (at most 1000 characters)',
    'contracts/prelude.rs, proved and so not trusted: the models of Option, Vec, iterators consumed from either end, few::Few, BTreeSet (a sequence sorted by Ord), str search, prefix, suffix and slicing are reference implementations verified against their contracts. What is assumed is that the std and few code behaves as these implementations do',
    'xtract: the translation of rustc THIR to Verus text (iterator adapters map/filter/chain/fold/collect become the loops they run; references to moved-out places become values). Tested, not proved: every check compiles the extracted text and compares its results with those of the crate (extraction_run_against_crate)',
    'Verus 0.2026.09.13 and Z3',
]
ASSUMPTIONS = [
    'point types are lawful: Ord is a total order consistent with Eq, Clone is faithful',
    'memory allocation succeeds',
]
