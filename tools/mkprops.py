#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts here and from props.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from props import PROPS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = 'for every totally ordered point type and every value of it'
FIN = 'for every finite point type (every type that gives its minimum, maximum, predecessor and successor) and every value of it'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


I, H = ['inputs'], ['inputs', 'histories']
B, R, N, IV, TI, TT, S = 'src/bound.rs', 'src/raw_interval.rs', 'src/normalize.rs', 'src/interval.rs', 'src/tine.rs', 'src/tine_tree.rs', 'src/selection.rs'

p('B01', 'Bound union and intersection are the exact meet and join of half-lines',
  '''Read as lower ends, the least union of two bounds admits a point exactly when one of them does, and the greatest intersection exactly when both do; read as upper ends, the greatest union and the least intersection do the same.
  At equal values the inclusive bound wins a union and the exclusive bound an intersection, an infinite bound absorbs or yields accordingly, and the result does not depend on the order of the operands.
  Mapping, defaulting and unwrapping a bound preserves its kind and value.''',
  I, GEN + ', every pair of bounds and every point.', 'The tests name a few integer bounds; the claim is over all value orders and all nine kinds of pair.',
  [B], [('pairwise match on the two bounds', B + ': least_union, least_intersect, greatest_union, greatest_intersect'), ('accessors', B + ': as_ref, map*, unwrap*')])
p('R01', 'A raw interval built from bounds holds exactly the points between them',
  '''An interval constructed from two bounds (through the general or any named constructor) contains a point exactly when it satisfies both bounds, and is the empty interval when no room is left between them.
  Its reported bounds, infimum and supremum are those of that set of points, and the empty and full queries agree with it.
  (When one end includes and the other excludes the same single value the result is either empty or that point.)''',
  I, GEN + ', every pair of bounds and every point, infinite and crossed bounds included.', 'Tests use a handful of i32 intervals; crossed, equal and infinite bounds combine in many more ways.',
  [R], [('constructors collapse crossed and equal bounds', R + ': new, open, left_open, right_open, closed'), ('membership by bounds', R + ': contains'), ('bounds of each shape', R + ': lower_bound, upper_bound, infimum, supremum')])
p('R02', 'Raw intersection is exactly the common points, and emptiness is decided right',
  '''A point lies in the intersection of two intervals exactly when it lies in both, whatever mixture of open, closed and unbounded ends they have.
  The intersection of two intervals that share a point is never empty, and the overlap query answers true exactly when the intersection is non-empty.''',
  I, GEN + ', every two intervals, every point.', 'There are a hundred pairs of shapes and several orders of end points for each; the tests take a sample.',
  [R, B], [('larger lower bound, smaller upper bound', R + ': intersect, intersects'), ('bound order', B + ': greatest_intersect, least_intersect')])
p('R03', 'Enclosing yields the least interval covering both; closure only adds the ends',
  '''The enclosure of two intervals contains every point of both, is contained in every other interval that covers both, and is empty only if both are.
  The closure of an interval has the same end values with both finite ends included, and closing twice changes nothing.''',
  I, GEN + ', every two intervals, every point.', 'Minimality ranges over all covering intervals, which no test enumerates.',
  [R, B], [('smaller lower bound, larger upper bound', R + ': enclose'), ('closure by shape', R + ': closure')])
p('R04', 'Raw complement and difference hold exactly the right points',
  '''The intervals returned by the complement together contain exactly the points the original does not, and those returned by a difference exactly the points of the left operand that are not in the right.
  Difference never returns an empty interval.''',
  I, GEN + ', every two intervals, every point.', 'Ten shapes against ten shapes and every order of end points; tests take a sample.',
  [R], [('complement by shape', R + ': complement'), ('intersection with the complement', R + ': minus')])
p('R05', 'Raw union merges exactly the intervals that touch, losing and adding nothing',
  '''The intervals returned by a union together contain exactly the points of the two operands, with no empty interval among them.
  They are merged into one exactly when they overlap or meet at a value one of them includes, and adjacency is symmetric.''',
  I, GEN + ', every two intervals, every point.', 'Merging depends on the order of four end points and the kind of each; tests take a sample.',
  [R, B], [('overlap or adjacency, else both', R + ': union, is_adjacent_to'), ('adjacent ends', B + ': is_union_adjacent_to')])
p('R06', 'Bulk enclose, intersect and union of any list of raw intervals are exact',
  '''Enclosing a list gives the least interval covering every member (empty for the empty list); intersecting a list gives exactly the points common to all members.
  The union of a list consists of non-empty intervals of which no two overlap or touch, and together they contain exactly the points of the members, in whatever order these come.''',
  I, GEN + ', every finite list of intervals of every length.', 'Lists of arbitrary length and order; an interval may bridge any number of earlier ones.',
  [R], [('folds', R + ': enclose_all, intersect_all'), ('accumulating merge', R + ': union_all')])
p('R07', 'Writing an interval as text and reading it back gives the same interval',
  '''Parsing the displayed text of an interval gives back an equal interval, and different intervals have different texts.
  Text that is not interval notation (the empty-set sign, a point, or two ends with their brackets around the first comma) is rejected with an error, and no text causes a panic.''',
  I, 'for every well-formed interval and every input text, for every point type whose values read back from their own text, write no comma, infinity sign or empty-set sign, and accept no text with a comma (the integer types among them).',
  'The set of texts is unbounded; tests parse a dozen.',
  [R], [('notation', R + ': Display, FromStr')])
p('N01', 'Normalizing and denormalizing keep the points and give one form per set',
  '''Normalizing or denormalizing an interval never adds or removes a point; both are idempotent, and normalizing after denormalizing is the same as normalizing.
  Two intervals with the same points normalize to equal intervals, and the normal form is empty, a single point, or closed with different ends; the denormalized form is empty or has no included end.''',
  I, FIN + ', every interval, including those that end at the type\'s minimum or maximum.', 'Behaviour at the ends of the type and at neighbouring values is easily missed by sampled i32 values.',
  [N, R], [('ends stepped by successor and predecessor', N + ': normalize, denormalize')])
p('N02', 'Every built-in integer type steps correctly over its whole range',
  '''For each built-in integer type the predecessor and successor of a value are its immediate neighbours and undo one another; the minimum alone has no predecessor and the maximum alone no successor.
  No step overflows or wraps.''',
  I, 'for all values of all twelve integer types.', 'Up to 2^128 values per type; tests reach a few, the extremes matter.',
  [N], [('checked steps', N + ': Finite for u8..usize, i8..isize')])
p('I01', 'A normalized interval contains exactly the points its constructor describes',
  '''Every constructor and conversion (bounds, named constructors, points, pairs of bounds, and the standard range types) gives an interval that contains a point exactly when the described range does, over the whole finite type.
  This includes ranges that start or end at the minimum or maximum of the type and crossed ranges, which are empty.
  (A range that includes and excludes the same single value is either empty or that point.)''',
  I, FIN + ', every pair of ends.', 'Tests use i32 values away from the ends of the type.',
  [IV, N], [('normalizing construction', IV + ': constructors, From'), ('normal form', N + ': normalize')])
p('I02', 'Two intervals are equal exactly when they contain the same points',
  '''Whatever sequence of constructors and operations produced them, two normalized intervals compare equal if and only if they contain the same points of the type.
  In particular an interval without points is always equal to the empty interval and reported empty, and one with a single point is equal to that point.''',
  H, FIN + ', every way of obtaining an interval from the public operations.', 'Equality of results along different histories; tests compare few.',
  [IV, N], [('every operation returns a normal form', IV), ('structural equality', IV + ': derived PartialEq')],
  [('the normal form', 'empty, a point, or closed with distinct ends', IV + ': Interval.0')])
p('I03', 'Interval intersection is the common points, enclosure the least cover',
  '''A point lies in the intersection of two intervals exactly when it lies in both, and they are reported to intersect exactly when some point does.
  The enclosure runs from the smaller of the least points to the larger of the greatest points of the two (or equals the other if one is empty), and the closure of an interval is itself.''',
  I, FIN + ', every two intervals.', 'All relative positions and the ends of the type; tests sample.',
  [IV, R], [('delegation and renormalization', IV + ': intersect, intersects, enclose, closure')])
p('I04', 'Interval union, difference and complement give exactly the maximal pieces',
  '''The intervals returned by a union, difference or complement together contain exactly the points they should.
  None of them is empty, no two overlap, and no two are neighbours that could be one interval (values next to one another in the type count as neighbours).
  A difference and a complement list their pieces in ascending order.''',
  I, FIN + ', every two intervals, including those at the ends of the type.', 'Neighbouring values and the type\'s ends decide; tests sample.',
  [IV, R, N], [('operate on denormalized forms, renormalize, drop empties', IV + ': union, minus, complement')])
p('I05', 'Iterating the points of an interval visits each once, in order, from both ends',
  '''Iterating an interval forwards yields its points in strictly ascending order and backwards in strictly descending order, each exactly once, and then stops.
  When steps from the two ends are mixed in any way, no point is yielded twice or skipped, and after the last point both ends stay finished.''',
  H, FIN + ', every interval and every interleaving of steps from the front and the back.', 'The number of interleavings is exponential and the intervals reach the ends of the type, where a step does not exist.',
  [IV], [('take an end point off what remains', IV + ': Iter::next, Iter::next_back')], [('what remains', 'the points not yet yielded', IV + ': Iter.inner')])
p('I06', 'Interval accessors and classification agree with the set of points',
  '''The bounds, infimum and supremum of an interval are its least and greatest points (none for the empty interval), and membership agrees with them.
  It is empty exactly if it has no point, degenerate exactly if it has one, proper exactly if it has more, and its size is the difference of its greatest and least points; as a set of a finite type every interval is bounded and closed, and open only if it is empty.''',
  I, FIN + ', every interval.', 'All intervals over all finite types, including single-valued types.',
  [IV], [('delegation on the normal form', IV + ': accessors and is_* queries')])
p('T01', 'Adding intervals to a tree gives exactly the union, whatever the tree',
  '''Adding an interval to a tree of intervals in place, or uniting two trees, gives a tree that contains a point exactly when one of the operands does.
  This holds for every pair of open, closed, point and unbounded pieces, at any position relative to the pieces already there, including ends that coincide.''',
  H, GEN + ', every reachable tree of any size, every interval, every second tree.', 'Trees of any size; the interplay at coinciding ends needs specific earlier operations.',
  [TT, TI], [('splice at the two ends, drop what lies between', TT + ': union_in_place, union_*_interval, *_split_*'), ('merging at one position', TI + ': union')],
  [('the tree', 'ordered boundary marks, alternating inside and outside', TT + ': TineTree.0')])
p('T02', 'Intersecting a tree keeps exactly the common points',
  '''Restricting a tree of intervals to an interval in place, or intersecting two trees, gives a tree that contains a point exactly when both operands do, also where ends coincide or pieces share only one point.''',
  H, GEN + ', every reachable tree of any size, every interval, every second tree.', 'As for union; excluded points inside a piece and coinciding ends need specific histories.',
  [TT, TI], [('keep the middle, re-cut the two ends', TT + ': intersect_in_place, intersect_proper_interval, intersect'), ('merging at one position', TI + ': intersect')])
p('T03', 'Removing intervals from a tree removes exactly their points',
  '''Removing an interval from a tree in place, or one tree from another, gives a tree that contains a point exactly when the left operand does and the right does not.
  Removing a single point from inside a piece leaves everything around it, and removing what is already absent changes nothing.''',
  H, GEN + ', every reachable tree of any size, every interval, every second tree.', 'As for union; removing points twice, or next to existing ends, needs specific histories.',
  [TT, TI], [('splice at the two ends, drop what lies between', TT + ': minus_in_place, minus_*_interval'), ('merging at one position', TI + ': minus')])
p('T04', 'The complement of a tree is exact and an involution',
  '''The complement of a tree of intervals contains exactly the points the tree does not, down to the single included or excluded point, and complementing twice gives back an equal tree.''',
  H, GEN + ', every reachable tree of any size.', 'Every boundary of a tree of any size must flip, including both infinite ends.',
  [TT, TI], [('flip every mark, toggle the infinite ends', TT + ': complement'), ('flip one mark', TI + ': invert')])
p('T05', 'Two trees are equal exactly when they hold the same intervals, however built',
  '''Whatever history of unions, intersections, differences, complements and collections led to them, two trees that contain the same points on every side of every value compare equal, and equal trees contain the same.
  Collecting intervals in any order gives the same tree, containing exactly the points of the collected intervals.''',
  H, GEN + ', every history of operations and every list of intervals.', 'Unboundedly many histories lead to the same set.',
  [TT], [('no redundant mark is ever left', TT + ': representation of TineTree'), ('collection by repeated union', TT + ': From, FromIterator')],
  [('canonical representation', 'a mark exactly where membership changes', TT + ': TineTree.0')])
p('T06', 'Listing a tree gives its maximal intervals in order, from either end',
  '''Iterating a tree yields its maximal intervals in ascending order: together they contain exactly its points, none is empty and no two touch.
  Mixing steps from the front and the back in any way yields each of them exactly once and then stops, and the owning and borrowing iterators agree.''',
  H, GEN + ', every reachable tree and every interleaving of front and back steps.', 'Exponentially many interleavings; a point excluded between two intervals is shared by both.',
  [TT], [('pair marks, keep the shared one', TT + ': Iter, IntoIter next/next_back')], [('pending mark', 'a mark shared by two intervals', TT + ': saved_lower, saved_upper')])
p('T07', 'Membership, emptiness, bounds and enclosure of a tree agree with its points',
  '''A tree reports containing a point exactly when one of its intervals does; it is empty exactly when it lists no interval, and full exactly when it lists just the whole line.
  Its lower and upper bounds are those of its first and last intervals, its enclosure is the interval between them, and its closure is the closure of that enclosure.''',
  H, GEN + ', every reachable tree, every point.', 'Trees of any size and shape.',
  [TT], [('first and last mark, scan of intervals', TT + ': contains, is_empty, is_full, lower_bound, upper_bound, enclose, closure')])
p('S01', 'Selection union, extension and collection hold exactly the points given',
  '''A union of selections, a selection with an interval added in place, and a selection extended with or collected from intervals or points contain a point exactly when one of the things put together does.''',
  H, FIN + ', every reachable selection, every list of intervals or points.', 'Selections of any size at any position, including the ends of the type.',
  [S, TT, N], [('delegation to the tree on denormalized intervals', S + ': union, union_in_place, Extend, FromIterator, From')])
p('S02', 'Selection intersection keeps exactly the common points',
  '''The intersection of two selections, or of a selection with an interval in place, contains a point exactly when both operands do.
  Two selections are reported to intersect exactly when some point of the type lies in both.''',
  H, FIN + ', every reachable selection and interval.', 'As for union; an intersection may be left with a gap that holds no point of the type.',
  [S, TT, N], [('delegation to the tree', S + ': intersect, intersect_in_place, intersects')])
p('S03', 'Selection difference removes exactly the points of the right operand',
  '''The difference of two selections, or a selection with an interval removed in place, contains a point exactly when the left operand does and the right does not.''',
  H, FIN + ', every reachable selection and interval.', 'As for union; removing next to existing ends needs specific histories.',
  [S, TT, N], [('delegation to the tree', S + ': minus, minus_in_place')])
p('S04', 'The complement of a selection is exact and an involution',
  '''The complement of a selection contains exactly the points of the type the selection does not.
  Complementing twice gives an equal selection, and a selection never intersects its complement while their union is full.''',
  H, FIN + ', every reachable selection.', 'Every boundary of a selection of any size, including the ends of the type.',
  [S, TT, N], [('delegation to the tree', S + ': complement')])
p('S05', 'Two selections are equal exactly when they hold the same points, however built',
  '''Whatever history of operations produced them, two selections compare equal if and only if they contain the same points of the type.
  A selection is reported empty exactly if it contains no point and full exactly if it contains every point.''',
  H, FIN + ', every history of operations.', 'Unboundedly many histories lead to the same set; neighbouring values must merge in every one of them.',
  [S, TT, N], [('one canonical denormalized tree per set', S + ': from_tree and every operation')],
  [('canonical representation', 'denormalized maximal intervals', S + ': Selection.0')])
p('S06', 'A selection lists its maximal intervals in order, each once, from either end',
  '''Iterating the intervals of a selection yields normalized, non-empty intervals in ascending order, no two of which overlap or are neighbours in the type, and together they contain exactly its points.
  Mixing steps from the front and the back in any way yields each exactly once and then stops.''',
  H, FIN + ', every reachable selection and every interleaving of steps.', 'Exponentially many interleavings over selections of any size.',
  [S, TT], [('normalize what the tree lists', S + ': IntervalIter, IntoIntervalIter')])
p('S07', 'Iterating a selection visits each of its points once, in order, from both ends',
  '''Iterating the points of a selection yields them in strictly ascending order forwards and strictly descending order backwards.
  When steps from the two ends are mixed in any way, no point is yielded twice or skipped, and after the last point both ends stay finished.''',
  H, FIN + ', every reachable selection and every interleaving of steps.', 'Exponentially many interleavings, meeting inside an interval or between two.',
  [S], [('current front and back interval around the remaining ones', S + ': Iter, IntoIter next/next_back')], [('what remains', 'front interval, unread intervals, back interval', S + ': Iter, IntoIter')])
p('S08', 'Selection extent queries agree with its points',
  '''The lower and upper bounds of a selection include its least and greatest points (none if it is empty); its enclosure is the interval from the least to the greatest, and its closure adds nothing to it.
  Membership queries answer exactly whether a point is in it, and every selection of a finite type is reported bounded on both sides.''',
  H, FIN + ', every reachable selection.', 'Selections that reach the ends of the type, where the stored bounds are infinite.',
  [S, TT], [('normalize what the tree reports', S + ': lower_bound, upper_bound, enclose, closure, is_bounded, contains')])
p('P01', 'No operation on intervals or selections panics, overflows or fails to finish',
  '''On every input that its documentation allows, no operation on bounds, intervals, interval trees or selections panics, reaches code marked unreachable, overflows an integer or loops forever.
  This includes the minimum and maximum of the point type and every mixture of iteration steps; a panic of an operator the point type itself supplies (the subtraction in `size`) is the type\'s own.''',
  H, 'for every finite or merely ordered point type, every reachable value and every operation.', 'Panics hide behind unreachable-code assertions that depend on the internal invariants holding after any history.',
  [B, R, N, IV, TI, TT, S], [('assertions and unwraps guarded by representation invariants', TT + ', ' + S)])

NA = {}


def main():
    ids = [q['id'] for q in P]
    assert len(set(ids)) == len(ids)
    for q in P:
        assert len(q['title']) <= 80, q['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    checks, na = [], []
    for q in P:
        i = q['id']
        if i in PROPS:
            checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                               technique='contract-based deductive verification (Verus) of the functions extracted from /repo on every run',
                               level='proof',
                               level_note='Every obligation of the contracted functions below this property is discharged by Verus/Z3 for all inputs and iterations; assumes a lawful order, equality, clone (and Finite) on the point type, sequence models of std collections, and the THIR extraction. '
                                          'Failed obligations are replayed against the real crate by a bounded search, which also stands in (labelled) for a function the verifier cannot take after a change.',
                               theorems=PROPS[i]['theorems']))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'contracts for this part are still being written; no check is claimed yet')))
    m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the extractor reads private items through the compiler. known-findings.txt lists the defects repaired by fix: commits.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


main()
