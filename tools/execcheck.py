#!/usr/bin/env python3
"""Run the extracted text against the crate it was extracted from.

The text Verus verifies is executable: its functions and the collection models have bodies. This
compiles that text (the trusted comparisons of the point type replaced by those of i8), compiles a
program on the crate itself, runs both on the same inputs and compares every result. A difference
is an error of the extractor or of a model, not of the crate.

    execcheck.py            exit 0: no difference; 1: differences; 2: could not run
"""
import fcntl, os, re, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import verify as V

X = os.path.join(V.HERE, 'execcheck')

# ---- the table: what is run on either side ----------------------------------
U, B, P = {}, {}, {}
RAW_U = dict(is_empty='b', is_full='b', lower_bound='ob', upper_bound='ob', infimum='oi', supremum='oi', complement='lr', closure='r')
RAW_B = dict(intersects='b', is_adjacent_to='b', intersect='r', union='lr', minus='lr', enclose='r')
IV_U = {**{n: 'b' for n in 'is_empty is_degenerate is_proper is_open is_left_open is_right_open is_half_open is_closed is_left_closed is_right_closed is_half_closed is_bounded is_left_bounded is_right_bounded is_half_bounded'.split()},
        **dict(lower_bound='ob', upper_bound='ob', infimum='oi', supremum='oi', complement='lv', closure='v')}
IV_B = dict(intersects='b', is_adjacent_to='b', intersect='v', union='lv', minus='lv', enclose='v')
TT_U = dict(is_empty='b', is_full='b', lower_bound='ob', upper_bound='ob', enclose='r', closure='r', complement='t')
TT_B = dict(union='t', minus='t', intersect='t')
SEL_U = dict(is_empty='b', is_full='b', infimum='oi', supremum='oi', lower_bound='ob', upper_bound='ob', is_bounded='b', is_left_bounded='b', is_right_bounded='b', is_half_bounded='b', enclose='v', closure='v', complement='s')
SEL_B = dict(intersects='b', intersect='s', union='s', minus='s')
# format of a value: model side, real side
FM = dict(b='f_dbg(&{})', i='f_dbg(&{})', oi='f_dbg(&{})', ob='f_ob(&{})', r='f_raw(&{})', v='f_iv(&{})', lr='f_lr(&It_to_vec({}))', lv='f_lv(&It_to_vec({}))', t='f_tt(&{})', s='f_sel(&{})', bd='f_bd(&{})', ot='f_ot(&{})', ti='f_ti(&{})', x='{}')
FR = dict(b='f_dbg(&{})', i='f_dbg(&{})', oi='f_dbg(&{})', ob='f_dbg(&{})', r='f_raw(&{})', v='f_iv(&{})', lr='f_dbg(&{}.collect::<Vec<_>>())', lv='f_dbg(&{}.collect::<Vec<_>>())', t='f_tt(&{})', s='f_sel(&{})', bd='f_bd(&{})', ot='f_dbg(&{})', ti='f_ti(&{})', x='{}')
rows = []   # (table, name, args, model expr, real expr, fmt)


def row(tab, name, args, m, r, f):
    rows.append((tab, name, args, m, r, f))


for pre, ty, us, bs in (('RawInterval', 'RAW', RAW_U, RAW_B), ('Interval', 'IV', IV_U, IV_B), ('TineTree', 'TT', TT_U, TT_B), ('Selection', 'SEL', SEL_U, SEL_B)):
    T = dict(RAW='RI', IV='IV', TT='TT', SEL='SEL')[ty]
    for n, f in us.items():
        row('U_' + ty, f'{pre}_{n}', [('a', '&' + T)], f'{pre}_{n}(a)', f'a.{n}()', f)
    for n, f in bs.items():
        row('B_' + ty, f'{pre}_{n}', [('a', '&' + T), ('b', '&' + T)], f'{pre}_{n}(a, b)', f'a.{n}(b)', f)
    row('P_' + ty, f'{pre}_contains', [('a', '&' + T), ('v', 'i8')], f'{pre}_contains(a, &v)', 'a.contains(&v)', 'b')
    row('U_' + ty, f'{pre}_Clone_clone', [('a', '&' + T)], f'{pre}_Clone_clone(a)', 'a.clone()', dict(RAW='r', IV='v', TT='t', SEL='s')[ty])
    row('B_' + ty, f'{pre}_PartialEq_eq', [('a', '&' + T), ('b', '&' + T)], f'{pre}_PartialEq_eq(a, b)', '(a == b)', 'b')
for n in 'normalize denormalize'.split():
    row('U_RAW', f'RawInterval_Normalize_{n}', [('a', '&RI')], f'{{ let mut x = c_raw(a); RawInterval_Normalize_{n}(&mut x); x }}', f'{{ let mut x = c_raw(a); x.{n}(); x }}', 'r')
    row('U_RAW', f'RawInterval_Normalize_{n}d', [('a', '&RI')], f'RawInterval_Normalize_{n}d(c_raw(a))', f'c_raw(a).{n}d()', 'r')
for n in 'open left_open right_open closed'.split():
    rows.append(('V_RAW', f'RawInterval_{n}', [('a', 'i8'), ('b', 'i8')], f'RawInterval_{n}(a, b)', f'RI::{n}(a, b)', None))
for n in 'enclose_all intersect_all union_all'.split():
    row('L_RAW', f'RawInterval_{n}', [('l', 'Vec<RI>')], f'RawInterval_{n}(It_from_vec(l))', f'RI::{n}(l.into_iter())', 'lr' if n[0] == 'u' else 'r')
row('L_RAW', 'TineTree_FromIterator_RawInterval_from_iter', [('l', 'Vec<RI>')], 'TineTree_FromIterator_RawInterval_from_iter(It_from_vec(l))', 'l.into_iter().collect::<TT>()', 't')
row('L_RAW', 'TineTree_From_P_from', [('l', 'Vec<RI>')], 'TineTree_From_P_from(It_from_vec(l))', 'TT::from(l.into_iter())', 't')
row('U_RAW', 'TineTree_from_raw_interval', [('a', '&RI')], 'TineTree_from_raw_interval(c_raw(a))', 'TT::from_raw_interval(c_raw(a))', 't')
row('U_RAW', 'TineTree_From_RawInterval_from', [('a', '&RI')], 'TineTree_From_RawInterval_from(c_raw(a))', 'TT::from(c_raw(a))', 't')
row('U_RAW', 'RawInterval_Display_fmt', [('a', '&RI')], '{ let mut f = Fmt { s: String::new() }; let _ = RawInterval_Display_fmt(a, &mut f); f.s }', 'a.to_string()', 'x')
row('U_RAW', 'RawInterval_FromStr_from_str', [('a', '&RI')], 'f_parse(&fmt_raw(a))', 'f_parse(&a.to_string())', 'x')
for n in 'is_finite is_inclusive is_exclusive'.split():
    row('U_BD', f'Bound_{n}', [('a', '&BD')], f'Bound_{n}(a)', f'a.{n}()', 'b')
row('U_BD', 'Bound_as_ref', [('a', '&BD')], 'Bound_as_ref(a)', 'a.as_ref()', 'oi')
row('U_BD', 'Bound_as_mut', [('a', '&BD')], '{ let mut x = c_bd(a); if let Some(y) = Bound_as_mut(&mut x) { *y = 77; } x }', '{ let mut x = c_bd(a); if let Some(y) = x.as_mut() { *y = 77; } x }', 'bd')
row('U_BD', 'Bound_unwrap_or', [('a', '&BD')], 'Bound_unwrap_or(c_bd(a), 5)', 'c_bd(a).unwrap_or(5)', 'i')
row('U_BD', 'Bound_unwrap_or_else', [('a', '&BD')], 'Bound_unwrap_or_else(c_bd(a), || 5)', 'c_bd(a).unwrap_or_else(|| 5)', 'i')
row('U_BD', 'Bound_map', [('a', '&BD')], 'Bound_map(c_bd(a), |x: i8| x ^ 3)', 'c_bd(a).map(|x| x ^ 3)', 'bd')
row('U_BD', 'Bound_map_or', [('a', '&BD')], 'Bound_map_or(c_bd(a), 9i8, |x: i8| x ^ 3)', 'c_bd(a).map_or(9i8, |x| x ^ 3)', 'i')
row('U_BD', 'Bound_map_or_else', [('a', '&BD')], 'Bound_map_or_else(c_bd(a), || 9i8, |x: i8| x ^ 3)', 'c_bd(a).map_or_else(|| 9i8, |x| x ^ 3)', 'i')
row('U_BD', 'Bound_transfer', [('a', '&BD')], 'Bound_transfer::<i8, BD, i8>(c_bd(a), 4i8)', 'BD::transfer(c_bd(a), 4i8)', 'bd')
row('U_BD', 'Bound_Clone_clone', [('a', '&BD')], 'Bound_Clone_clone(a)', 'a.clone()', 'bd')
for n in 'least_union least_intersect greatest_union greatest_intersect'.split():
    row('B_BD', f'Bound_{n}', [('a', '&BD'), ('b', '&BD')], f'Bound_{n}(a, b)', f'a.{n}(b)', 'bd')
row('B_BD', 'Bound_PartialEq_eq', [('a', '&BD'), ('b', '&BD')], 'Bound_PartialEq_eq(a, b)', '(a == b)', 'b')
for n in 'open left_open right_open closed left_closed right_closed'.split():
    row('V_IV', f'Interval_{n}', [('a', 'i8'), ('b', 'i8')], f'Interval_{n}(a, b)', f'IV::{n}(a, b)', 'v')
row('V_IV', 'Interval_From_Range_from', [('a', 'i8'), ('b', 'i8')], 'Interval_From_Range_from(a..b)', 'IV::from(a..b)', 'v')
for n in 'point unbounded_from unbounded_to unbounded_up_from unbounded_up_to'.split():
    row('V_ONE', f'Interval_{n}', [('a', 'i8')], f'Interval_{n}(a)', f'IV::{n}(a)', 'v')
for n, e in (('RangeFrom', 'a..'), ('RangeTo', '..a'), ('RangeToInclusive', '..=a')):
    row('V_ONE', f'Interval_From_{n}_from', [('a', 'i8')], f'Interval_From_{n}_from({e})', f'IV::from({e})', 'v')
row('V_ONE', 'Interval_From_P_from', [('a', 'i8')], 'Interval_From_P_from(a)', 'IV::from(a)', 'v')
row('V_ONE', 'i8_Finite_pred', [('a', 'i8')], 'i8_Finite_pred(&a)', 'Finite::pred(&a)', 'oi')
row('V_ONE', 'i8_Finite_succ', [('a', 'i8')], 'i8_Finite_succ(&a)', 'Finite::succ(&a)', 'oi')
row('V_ONE', 'Interval_full', [('a', 'i8')], '{ let _ = a; Interval_full() }', '{ let _ = a; IV::full() }', 'v')
row('V_ONE', 'Interval_empty', [('a', 'i8')], '{ let _ = a; Interval_empty() }', '{ let _ = a; IV::empty() }', 'v')
row('V_ONE', 'Interval_Default_default', [('a', 'i8')], '{ let _ = a; Interval_Default_default() }', '{ let _ = a; IV::default() }', 'v')
row('V_ONE', 'Selection_full', [('a', 'i8')], '{ let _ = a; Selection_full() }', '{ let _ = a; SEL::full() }', 's')
row('V_ONE', 'Selection_empty', [('a', 'i8')], '{ let _ = a; Selection_empty() }', '{ let _ = a; SEL::empty() }', 's')
row('V_ONE', 'Bound_From_P_from', [('a', 'i8')], 'Bound_From_P_from(a)', 'BD::from(a)', 'bd')
row('U_IV', 'Interval_into_non_empty', [('a', '&IV')], 'f_oiv(Interval_into_non_empty(c_iv(a)))', 'f_dbg(&c_iv(a).into_non_empty())', 'x')
row('U_IV', 'Selection_From_Interval_from', [('a', '&IV')], 'Selection_From_Interval_from(c_iv(a))', 'SEL::from(c_iv(a))', 's')
row('U_IV', 'Interval_size', [('a', '&IV')], 'if small_iv(a) { f_dbg(&Interval_size(a)) } else { String::new() }', 'if small_iv(a) { f_dbg(&a.size()) } else { String::new() }', 'x')
for n, mk, rk in (('Interval_iter', 'Interval_iter(a)', 'a.iter()'), ('Interval_IntoIterator_into_iter', 'Interval_IntoIterator_into_iter(c_iv(a))', 'c_iv(a).into_iter()'), ('ref_Interval_IntoIterator_into_iter', 'ref_Interval_IntoIterator_into_iter(a)', '(&*a).into_iter()')):
    row('S_IV', n, [('a', '&IV'), ('s', 'u32')], f'{{ let mut it = {mk}; sched(s, &mut |b| if b {{ interval_Iter_DoubleEndedIterator_next_back(&mut it) }} else {{ interval_Iter_Iterator_next(&mut it) }}.map(|x| x.to_string())) }}',
        f'{{ let mut it = {rk}; sched(s, &mut |b| if b {{ it.next_back() }} else {{ it.next() }}.map(|x| x.to_string())) }}', 'x')
for n, mk, rk, tp in (('Selection_iter', 'Selection_iter(a)', 'a.iter()', 'selection_Iter'), ('Selection_IntoIterator_into_iter', 'Selection_IntoIterator_into_iter(Selection_Clone_clone(a))', 'a.clone().into_iter()', 'selection_IntoIter'), ('ref_Selection_IntoIterator_into_iter', 'ref_Selection_IntoIterator_into_iter(a)', '(&*a).into_iter()', 'selection_Iter')):
    row('S_SEL', n, [('a', '&SEL'), ('s', 'u32')], f'{{ let mut it = {mk}; sched(s, &mut |b| if b {{ {tp}_DoubleEndedIterator_next_back(&mut it) }} else {{ {tp}_Iterator_next(&mut it) }}.map(|x| x.to_string())) }}',
        f'{{ let mut it = {rk}; sched(s, &mut |b| if b {{ it.next_back() }} else {{ it.next() }}.map(|x| x.to_string())) }}', 'x')
for n, mk, rk, tp in (('Selection_interval_iter', 'Selection_interval_iter(a)', 'a.interval_iter()', 'IntervalIter'), ('Selection_into_interval_iter', 'Selection_into_interval_iter(Selection_Clone_clone(a))', 'a.clone().into_interval_iter()', 'IntoIntervalIter')):
    row('S_SEL', n, [('a', '&SEL'), ('s', 'u32')], f'{{ let mut it = {mk}; sched(s, &mut |b| if b {{ {tp}_DoubleEndedIterator_next_back(&mut it) }} else {{ {tp}_Iterator_next(&mut it) }}.map(|x| f_iv(&x))) }}',
        f'{{ let mut it = {rk}; sched(s, &mut |b| if b {{ it.next_back() }} else {{ it.next() }}.map(|x| f_iv(&x))) }}', 'x')
for n, mk, rk, tp in (('TineTree_interval_iter', 'TineTree_interval_iter(a)', 'a.interval_iter()', 'tine_tree_Iter'), ('TineTree_IntoIterator_into_iter', 'TineTree_IntoIterator_into_iter(TineTree_Clone_clone(a))', 'a.clone().into_iter()', 'tine_tree_IntoIter')):
    row('S_TT', n, [('a', '&TT'), ('s', 'u32')], f'{{ let mut it = {mk}; sched(s, &mut |b| if b {{ {tp}_DoubleEndedIterator_next_back(&mut it) }} else {{ {tp}_Iterator_next(&mut it) }}.map(|x| f_raw(&x))) }}',
        f'{{ let mut it = {rk}; sched(s, &mut |b| if b {{ it.next_back() }} else {{ it.next() }}.map(|x| f_raw(&x))) }}', 'x')
for n in 'union_in_place minus_in_place intersect_in_place'.split():
    rows.append(('I_TT', f'TineTree_{n}', [('mut t', 'TT'), ('a', '&RI')], f'{{ TineTree_{n}(&mut t, a); t }}', f'{{ t.{n}(a); t }}', None))
    rows.append(('I_SEL', f'Selection_{n}', [('mut t', 'SEL'), ('a', 'IV')], f'{{ Selection_{n}(&mut t, a); t }}', f'{{ t.{n}(a); t }}', None))
row('LV_SEL', 'Selection_FromIterator_P_from_iter', [('l', 'Vec<i8>')], 'Selection_FromIterator_P_from_iter(It_from_vec(l))', 'l.into_iter().collect::<SEL>()', 's')
row('L_SEL', 'Selection_FromIterator_Interval_from_iter', [('l', 'Vec<IV>')], 'Selection_FromIterator_Interval_from_iter(It_from_vec(l))', 'l.into_iter().collect::<SEL>()', 's')
row('L_SEL', 'Selection_Extend_Interval_extend', [('l', 'Vec<IV>')], '{ let mut x = Selection_From_Interval_from(Interval_closed(3, 9)); Selection_Extend_Interval_extend(&mut x, It_from_vec(l)); x }', '{ let mut x = SEL::from(IV::closed(3, 9)); x.extend(l); x }', 's')
for n in 'is_lower_bound is_upper_bound is_point_include is_point_exclude'.split():
    row('U_TI', f'Tine_{n}', [('a', '&TI')], f'Tine_{n}(a)', f'a.{n}()', 'b')
row('U_TI', 'Tine_as_ref', [('a', '&TI')], 'Tine_as_ref(a)', 'a.as_ref()', 'oi')
row('U_TI', 'Tine_into_inner', [('a', '&TI')], 'Tine_into_inner(Tine_Clone_clone(a))', 'a.clone().into_inner()', 'bd')
row('U_TI', 'Tine_invert', [('a', '&TI')], 'Tine_invert(Tine_Clone_clone(a))', 'a.clone().invert()', 'ti')
for n in 'union intersect minus'.split():
    row('M_TI', f'Tine_{n}', [('a', '&TI'), ('b', '&TI')], f'Tine_{n}(Tine_Clone_clone(a), b)', f'a.clone().{n}(b)', 'ot')
row('B_TI', 'Tine_Ord_cmp', [('a', '&TI'), ('b', '&TI')], 'Tine_Ord_cmp(a, b)', 'a.cmp(b)', 'b')
row('B_TI', 'Tine_PartialOrd_partial_cmp', [('a', '&TI'), ('b', '&TI')], 'Tine_PartialOrd_partial_cmp(a, b)', 'a.partial_cmp(b)', 'b')
row('B_TI', 'Tine_PartialEq_eq', [('a', '&TI'), ('b', '&TI')], 'Tine_PartialEq_eq(a, b)', '(a == b)', 'b')
for ty in 'u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize'.split():
    # the argument picks one of the eight values at either end
    pick = f'{{ let k = (a as u8 & 3) as {ty}; if (a as u8) & 4 == 0 {{ {ty}::MIN + k }} else {{ {ty}::MAX - k }} }}'
    for n in 'pred succ'.split():
        row('V_ONE', f'{ty}_Finite_{n}', [('a', 'i8')], f'{ty}_Finite_{n}(&{pick})', f'Finite::{n}(&{pick})', 'oi')
    for n in 'MINIMUM MAXIMUM'.split():
        row('V_ONE', f'{ty}_Finite_{n}', [('a', 'i8')], f'{{ let _ = a; {ty}_Finite_{n}() }}', f'{{ let _ = a; <{ty} as Finite>::{n} }}', 'i')
for n in 'MINIMUM MAXIMUM'.split():
    row('V_ONE', f'i8_Finite_{n}', [('a', 'i8')], f'{{ let _ = a; i8_Finite_{n}() }}', f'{{ let _ = a; <i8 as Finite>::{n} }}', 'i')
row('U_BD', 'Bound_unwrap', [('a', '&BD')], 'Bound_unwrap(c_bd(a))', 'c_bd(a).unwrap()', 'i')
row('V_ONE', 'Bound_Default_default', [('a', 'i8')], '{ let _ = a; Bound_Default_default::<i8>() }', '{ let _ = a; BD::default() }', 'bd')
row('V_ONE', 'Selection_Default_default', [('a', 'i8')], '{ let _ = a; Selection_Default_default() }', '{ let _ = a; SEL::default() }', 's')
row('V_ONE', 'Interval_From_RangeFull_from', [('a', 'i8')], '{ let _ = a; Interval_From_RangeFull_from(..) }', '{ let _ = a; IV::from(..) }', 'v')

TABLES = {'U_BD': 'fn(&BD) -> String', 'B_BD': 'fn(&BD, &BD) -> String', 'U_RAW': 'fn(&RI) -> String', 'B_RAW': 'fn(&RI, &RI) -> String', 'P_RAW': 'fn(&RI, i8) -> String',
          'V_RAW': 'fn(i8, i8) -> RI', 'L_RAW': 'fn(Vec<RI>) -> String', 'U_IV': 'fn(&IV) -> String', 'B_IV': 'fn(&IV, &IV) -> String', 'P_IV': 'fn(&IV, i8) -> String', 'V_IV': 'fn(i8, i8) -> String',
          'S_IV': 'fn(&IV, u32) -> String', 'V_ONE': 'fn(i8) -> String', 'U_TI': 'fn(&TI) -> String', 'B_TI': 'fn(&TI, &TI) -> String', 'M_TI': 'fn(&TI, &TI) -> String',
          'I_TT': 'fn(TT, &RI) -> TT', 'I_SEL': 'fn(SEL, IV) -> SEL', 'U_TT': 'fn(&TT) -> String', 'B_TT': 'fn(&TT, &TT) -> String', 'P_TT': 'fn(&TT, i8) -> String', 'S_TT': 'fn(&TT, u32) -> String',
          'U_SEL': 'fn(&SEL) -> String', 'B_SEL': 'fn(&SEL, &SEL) -> String', 'P_SEL': 'fn(&SEL, i8) -> String', 'S_SEL': 'fn(&SEL, u32) -> String', 'LV_SEL': 'fn(Vec<i8>) -> String', 'L_SEL': 'fn(Vec<IV>) -> String'}
RET = {'V_RAW': 'RI', 'I_TT': 'TT', 'I_SEL': 'SEL'}


def tables(model, have=None):
    out = []
    for t, ty in TABLES.items():
        es = []
        for tab, name, args, m, r, f in rows:
            if tab != t or (have is not None and name not in have):
                continue
            e = m if model else r
            if f:
                e = 'cu(|| ' + (FM if model else FR)[f].format('(' + e + ')' if not e.startswith('{') else e) + ')'
            es.append('("%s", |%s| -> %s { %s })' % (name, ', '.join(f'{a}: {b}' for a, b in args), RET.get(t, 'String'), e))
        out.append(f'pub static {t}: &[(&str, {ty})] = &[\n    ' + ',\n    '.join(es) + '];')
    return '\n'.join(out) + '\n'


MODEL = r'''
type BD = Bound<i8>; type RI = RawInterval<i8>; type IV = Interval<i8>; type TI = Tine<i8>; type TT = TineTree<i8>; type SEL = Selection<i8>;
impl Finite for i8 {
    fn MINIMUM_c() -> i8 { i8_Finite_MINIMUM() }
    fn MAXIMUM_c() -> i8 { i8_Finite_MAXIMUM() }
    fn pred(&self) -> Option<i8> { i8_Finite_pred(self) }
    fn succ(&self) -> Option<i8> { i8_Finite_succ(self) }
}
fn is_i8<T>() -> bool { std::any::type_name::<T>() == "i8" }
fn xi8<T>(a: &T) -> i8 { assert!(is_i8::<T>(), "{}", std::any::type_name::<T>()); unsafe { *(a as *const T as *const i8) } }
fn ri8<T>(a: i8) -> T { assert!(is_i8::<T>(), "{}", std::any::type_name::<T>()); unsafe { std::mem::transmute_copy(&a) } }
fn xeq<T>(a: &T, b: &T) -> bool {
    let n = std::any::type_name::<T>().replace("execmodel::", "");
    let (a, b) = (a as *const T, b as *const T);
    unsafe { match n.as_str() {
        "i8" => *(a as *const i8) == *(b as *const i8),
        "Bound<i8>" => f_bd(&*(a as *const BD)) == f_bd(&*(b as *const BD)),
        "RawInterval<i8>" => f_raw(&*(a as *const RI)) == f_raw(&*(b as *const RI)),
        "Tine<i8>" | "&Tine<i8>" if !n.starts_with('&') => f_ti(&*(a as *const TI)) == f_ti(&*(b as *const TI)),
        "&Tine<i8>" => f_ti(&**(a as *const &TI)) == f_ti(&**(b as *const &TI)),
        _ => panic!("compare {n}"),
    } }
}
fn f_dbg<A: std::fmt::Debug>(a: &A) -> String { format!("{a:?}") }
fn f_bd(a: &BD) -> String { match a { Bound::Include(x) => format!("Include({x})"), Bound::Exclude(x) => format!("Exclude({x})"), Bound::Infinite => "Infinite".into() } }
fn f_ob(a: &Option<BD>) -> String { match a { None => "None".into(), Some(b) => format!("Some({})", f_bd(b)) } }
fn f_raw(a: &RI) -> String { match a {
    RawInterval::Empty => "Empty".into(), RawInterval::Point(p) => format!("Point({p})"), RawInterval::Open(l, r) => format!("Open({l}, {r})"), RawInterval::LeftOpen(l, r) => format!("LeftOpen({l}, {r})"),
    RawInterval::RightOpen(l, r) => format!("RightOpen({l}, {r})"), RawInterval::Closed(l, r) => format!("Closed({l}, {r})"), RawInterval::UpTo(p) => format!("UpTo({p})"), RawInterval::UpFrom(p) => format!("UpFrom({p})"),
    RawInterval::To(p) => format!("To({p})"), RawInterval::From(p) => format!("From({p})"), RawInterval::Full => "Full".into() } }
fn f_iv(a: &IV) -> String { format!("Interval({})", f_raw(&a.0)) }
fn f_oiv(a: Option<IV>) -> String { match a { None => "None".into(), Some(x) => format!("Some({})", f_iv(&x)) } }
fn f_lr(a: &Vec<RI>) -> String { format!("[{}]", a.iter().map(f_raw).collect::<Vec<_>>().join(", ")) }
fn f_lv(a: &Vec<IV>) -> String { format!("[{}]", a.iter().map(f_iv).collect::<Vec<_>>().join(", ")) }
fn f_ti(a: &TI) -> String { match a { Tine::Lower(b) => format!("Lower({})", f_bd(b)), Tine::Point(b) => format!("Point({})", f_bd(b)), Tine::Upper(b) => format!("Upper({})", f_bd(b)) } }
fn f_ot(a: &Option<TI>) -> String { match a { None => "None".into(), Some(b) => format!("Some({})", f_ti(b)) } }
fn f_tt(a: &TT) -> String { format!("TineTree({{{}}})", It_to_vec(BSet_into_iter(BSet_clone(&a.0))).iter().map(f_ti).collect::<Vec<_>>().join(", ")) }
fn f_sel(a: &SEL) -> String { format!("Selection({})", f_tt(&a.0)) }
fn fmt_raw(a: &RI) -> String { let mut f = Fmt { s: String::new() }; let _ = RawInterval_Display_fmt(a, &mut f); f.s }
fn parse1(s: &str) -> String { match RawInterval_FromStr_from_str::<i8>(s) { Ok(x) => f_raw(&x), Err(_) => "Err".into() } }
fn c_raw(a: &RI) -> RI { RawInterval_Clone_clone(a) }
fn c_bd(a: &BD) -> BD { Bound_Clone_clone(a) }
fn c_iv(a: &IV) -> IV { Interval_Clone_clone(a) }
fn b_inf() -> BD { Bound::Infinite }
fn b_inc(v: i8) -> BD { Bound::Include(v) }
fn b_exc(v: i8) -> BD { Bound::Exclude(v) }
fn raw_new(a: BD, b: BD) -> RI { RawInterval_new(a, b) }
fn raw_point(v: i8) -> RI { RawInterval::Point(v) }
fn iv_raw(a: RI) -> IV { Interval_From_RawInterval_from(a) }
fn iv_new(a: BD, b: BD) -> IV { Interval_new(a, b) }
fn t_lower(b: BD) -> TI { Tine::Lower(b) }
fn t_upper(b: BD) -> TI { Tine::Upper(b) }
fn t_point(b: BD) -> TI { Tine::Point(b) }
fn tt_same(a: &TI, b: &TI) -> bool { Tine_Ord_cmp(a, b) == Ordering::Equal }
fn tt_new() -> TT { TineTree_new() }
fn sel_new() -> SEL { Selection_new() }
fn small_iv(a: &IV) -> bool { match (Interval_infimum(a), Interval_supremum(a)) { (Some(l), Some(u)) => u.checked_sub(l).is_some(), _ => true } }
fn main() { drive_main() }
'''
REAL = r'''
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
type BD = Bound<i8>; type RI = RawInterval<i8>; type IV = Interval<i8>; type TI = Tine<i8>; type TT = TineTree<i8>; type SEL = Selection<i8>;
fn f_dbg<A: std::fmt::Debug>(a: &A) -> String { format!("{a:?}") }
fn f_bd(a: &BD) -> String { f_dbg(a) }
fn f_raw(a: &RI) -> String { f_dbg(a) }
fn f_iv(a: &IV) -> String { f_dbg(a) }
fn f_ti(a: &TI) -> String { f_dbg(a) }
fn f_tt(a: &TT) -> String { f_dbg(a) }
fn f_sel(a: &SEL) -> String { f_dbg(a) }
fn parse1(s: &str) -> String { match s.parse::<RI>() { Ok(x) => f_raw(&x), Err(_) => "Err".into() } }
fn c_raw(a: &RI) -> RI { a.clone() }
fn c_bd(a: &BD) -> BD { a.clone() }
fn c_iv(a: &IV) -> IV { a.clone() }
fn b_inf() -> BD { Bound::Infinite }
fn b_inc(v: i8) -> BD { Bound::Include(v) }
fn b_exc(v: i8) -> BD { Bound::Exclude(v) }
fn raw_new(a: BD, b: BD) -> RI { RI::new(a, b) }
fn raw_point(v: i8) -> RI { RawInterval::Point(v) }
fn iv_raw(a: RI) -> IV { IV::from(a) }
fn iv_new(a: BD, b: BD) -> IV { IV::new(a, b) }
fn t_lower(b: BD) -> TI { Tine::Lower(b) }
fn t_upper(b: BD) -> TI { Tine::Upper(b) }
fn t_point(b: BD) -> TI { Tine::Point(b) }
fn tt_same(a: &TI, b: &TI) -> bool { a.cmp(b) == std::cmp::Ordering::Equal }
fn tt_new() -> TT { TT::new() }
fn sel_new() -> SEL { SEL::new() }
fn small_iv(a: &IV) -> bool { match (a.infimum(), a.supremum()) { (Some(l), Some(u)) => u.checked_sub(l).is_some(), _ => true } }
fn main() { drive_main() }
'''
BOTH = r'''
// an operation that panics gives the result "panic" on both sides
fn cu<F: FnOnce() -> String>(f: F) -> String { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or("panic".into()) }
fn sched(s: u32, next: &mut dyn FnMut(bool) -> Option<String>) -> String {
    let mut out = vec![];
    for k in 0..20 { out.push(next((s >> k) & 1 == 1).unwrap_or("-".into())); }
    out.join(" ")
}
// texts near `a`: one character dropped, doubled or replaced at each place
fn f_parse(a: &str) -> String {
    let c: Vec<char> = a.chars().collect();
    let mut out = vec![parse1(a)];
    for i in 0..=c.len() {
        for x in ['(', '[', ',', '-', '1', '\u{221e}', ']', ')', ' ', '\u{d8}', 'x'] {
            let mut d = c.clone(); d.insert(i, x); out.push(parse1(&d.iter().collect::<String>()));
            if i < c.len() { let mut d = c.clone(); d[i] = x; out.push(parse1(&d.iter().collect::<String>())); }
        }
        if i < c.len() { let mut d = c.clone(); d.remove(i); out.push(parse1(&d.iter().collect::<String>())); }
    }
    out.join("|")
}
'''

EXEC_BODY = {
    'vlt': 'xi8(a) < xi8(b)', 'veq': 'xeq(a, b)', 'vclone': 'unsafe { std::ptr::read(a) }', 'vsub': 'ri8(xi8(&a) - xi8(&b))', 'vdefault': 'ri8(0)',
    'vborrow': 'unsafe { &*(b as *const B as *const X) }',
    'vparse': 'match s.parse::<i8>() { Ok(x) => Ok(ri8(x)), Err(_) => Err(PErr { a: core::marker::PhantomData }) }',
    'Fmt_write': 'let mut a = a; loop { match a { FArgs::Nil => return Ok(()), FArgs::Cons(x, r) => { match x { FArg::Lit(c) => f.s.push(c), FArg::Show(t) => f.s.push_str(&t) }; a = *r; } } }',
    'Fmt_write_str': 'f.s.push_str(a); Ok(())', 'Fmt_write_char': 'f.s.push(a); Ok(())', 'Fmt_show': 'f.s.push_str(&xi8(a).to_string()); Ok(())', 'str_len': 'a.len()',
}


def patch(text):
    """The verified text with the assumed primitives given the behaviour of i8 and of std."""
    for n, b in EXEC_BODY.items():
        text, k = re.subn(r'(pub fn %s(?:<[^(]*>)?\((?:[^{]|\{(?! unimplemented))*?)\{ unimplemented!\(\) \}' % n, lambda m: m.group(1) + '{ ' + b + ' }', text, count=1)
        if not k:
            raise V.ToolError('no primitive ' + n)
    text = text.replace('pub struct Fmt { a: u8 }', 'pub struct Fmt { pub s: String }').replace('Show(Ghost<Seq<char>>)', 'Show(String)')
    text = text.replace("pub fn slit(g: Ghost<Seq<char>>) -> (r: &'static str) requires g@.len() <= 1000 ensures r@ == g@", "pub fn slit(g: &'static str) -> (r: &'static str)").replace("(r: &'static str) { unimplemented!() }", "(r: &'static str) { g }")
    text = re.sub(r'FArg::Show\(Ghost\(txt\((\*[\w.()*&]+?)\)\)\)', r'FArg::Show(xshow(&\1))', text)
    text = re.sub(r"slit\(Ghost\(Seq::<char>::empty\(\)((?:\.push\('[^']*'\))*)\)\)", lambda m: 'slit("' + ''.join(re.findall(r"push\('([^']*)'\)", m.group(1))) + '")', text)
    text = text.replace('} // verus!\nfn main() {}\n', '#[verifier::external_body] pub fn xshow<T>(a: &T) -> String { xi8(a).to_string() }\n} // verus!\n')
    return text


def compare(tag, contracts=None, timeout=200, dump=None):
    """(report, text): report['ran'] tells whether both programs could be built and run."""
    os.makedirs(V.BUILD, exist_ok=True)
    contracts = contracts or V.load_contracts()
    ext = V.extract(contracts)
    fns = {f['name']: f for f in ext['fns']}
    text, lm, problems = V.assemble(ext, contracts, [n for n in contracts if n in fns])
    driver = open(os.path.join(X, 'src/driver.rs')).read()

    def whole(r):
        need = [w for w in re.findall(r'\w+', r[3]) if w in fns]
        return all(w in fns for w in [r[1]] if w in contracts) and not any(n in problems for n in V.cone(fns, contracts, need))
    have = {r[1] for r in rows if r[1] in fns and whole(r)}
    src, out = os.path.join(V.BUILD, f'execmodel-{tag}.rs'), os.path.join(V.BUILD, f'execmodel-{tag}')
    try:
        open(src, 'w').write(patch(text) + MODEL + BOTH + tables(True, have) + driver)
        p = V.sh(['verus', src, '--no-verify', '--compile', '--crate-name', 'execmodel', '-C', 'opt-level=1', '-C', 'overflow-checks=yes', '-o', out], timeout=timeout)
        if p.returncode != 0 or not os.path.exists(out):
            return dict(ran=False, why='the extracted text does not compile'), p.stderr[-4000:]
        real = '#![allow(noop_method_call)]\n' + REAL + BOTH + tables(False, have) + driver
        with open(os.path.join(V.BUILD, 'exec.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            mp = os.path.join(X, 'src/main.rs')
            if not os.path.exists(mp) or open(mp).read() != real:
                open(mp, 'w').write(real)
            p = V.sh(['cargo', 'build', '--offline', '-q'], cwd=X, timeout=timeout)
            if p.returncode != 0:
                return dict(ran=False, why='the program on the crate does not compile'), p.stderr[-4000:]
            exe = out + '-crate'
            shutil.copy(os.path.join(X, 'target/debug/execcheck'), exe)
        args = [dump] if dump else []
        a, b = V.sh([out] + args, timeout=timeout), V.sh([exe] + args, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(ran=False, why='out of time'), ''
    finally:
        for q in (src, out, out + '-crate'):
            if os.path.exists(q) and not dump:
                os.remove(q)
    if a.returncode or b.returncode:
        return dict(ran=False, why='status %d and %d' % (a.returncode, b.returncode)), a.stderr[-1500:] + b.stderr[-1500:]
    la, lb = a.stdout.splitlines(), b.stdout.splitlines()
    diff = [(x, y) for x, y in zip(la, lb) if x != y]
    n = [l.split() for l in lb if len(l.split()) == 3 and l.split()[1].isdigit()]
    return dict(ran=True, operations=len(n), results_compared=sum(int(x[1]) for x in n), differ=sorted({x.split()[0] for x, _ in diff} | ({'*'} if len(la) != len(lb) else set())),
                not_run=sorted({r[1] for r in rows} - have)), '\n'.join('model: %s\ncrate: %s' % d for d in diff[:10])


def main():
    rep, text = compare('cli', dump=sys.argv[1] if len(sys.argv) > 1 else None)
    print(text)
    print(rep)
    return 2 if not rep['ran'] else 1 if rep['differ'] else 0


if __name__ == '__main__':
    sys.exit(main())
