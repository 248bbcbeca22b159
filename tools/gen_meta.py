"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, the results are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, note, technique):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                note=note, technique=technique)


C = 'curvepy/'
PROPS = [
    P('C01', 'Looking up a series gives its points and interpolates between them',
      'At the x of a point a series gives exactly the value of that point, and between two points it gives the value '
      'of the point before, the point after, or the straight line between both, as its interpolation says. Outside of '
      'its first and last point, and where a value it has to blend is missing, it gives None. This holds for '
      'evenly and unevenly spaced points at every spacing and origin, exact in binary or not.',
      ['inputs'], 'for all series (number of points, spacing, origin, values, interpolation) and all x',
      'The tests look up a handful of points on integer grids; the index arithmetic of evenly spaced series depends on '
      'rounding, on the length and on the origin.',
      [C + 'points.py'], [('index of x', C + 'points.py: Points.x_index'), ('interpolation', C + 'points.py: Points.y')],
      'random series and lookups; exact comparison at points, 1e-9 relative in between',
      'runtime monitoring: online oracle (bisect over the list) on every lookup'),
    P('C02', 'A series always holds what its history of edits says',
      'After any sequence of appending, inserting, replacing, removing an interval and replacing everything, a series '
      'holds exactly the points which an ordinary sorted list would hold after the same sequence. Its domain, '
      'lookups, steps and samples follow from those points alone, not from how it came to hold them. A series which '
      'has to be evenly spaced never holds unevenly spaced points.',
      ['histories'], 'for all sequences of valid edits of evenly and unevenly spaced series',
      'The tests make one or two edits each; a stale spacing, index or domain shows after particular sequences only.',
      [C + 'points.py'], [('edits', C + 'points.py: Points.append_list, replace, reset, set'),
                          ('spacing', C + 'points.py: Points.is_uniform, interval')],
      'random histories of up to some tens of edits; after each one all observers of the series are compared with the '
      'list', 'runtime monitoring: model list run in lock step with the series'),
    P('C03', 'A rejected edit leaves no trace',
      'When an edit is refused with an exception, the data and everything derived from it answer exactly as before. No '
      'observer is told of a refused edit and nothing is left in the middle of an update. An append which '
      'does not go on after the last point, an edit which breaks the even spacing of a uniform series, and a replacement '
      'outside of a series are refused.',
      ['histories', 'fault_sequences'], 'for all valid histories with invalid edits mixed in',
      'The tests check that some invalid edits raise, not what is left behind in the series and in its observers.',
      [C + 'points.py', C + 'sin.py', C + 'line.py', C + 'quotes.py'],
      [('validation', C + 'points.py: Points.append_list, replace, set'), ('update state', C + 'curve.py: Curve.begin_update')],
      'random histories with about a third invalid edits; snapshots of values, steps, domain and notifications',
      'runtime monitoring: snapshot comparison around injected invalid edits'),
    P('C04', 'Stepping visits every point once, in order, in both directions',
      'From any x, the next and previous step of a curve are the nearest of its points which are at least the minimum '
      'step away in that direction, or nothing if there are none. The points of a combination of curves are the points '
      'of all of its operands within its domain. Stepping through a curve therefore terminates and visits each point '
      'once, and stepping back visits the same points in reverse.',
      ['inputs', 'histories'], 'for all graphs of curves, all starting points and minimum steps, before and after edits',
      'The tests step a few curves on small integer grids; skipped or repeated points need particular combinations of '
      'grids, domains and minimum steps.',
      [C + 'curve.py', C + 'points.py', C + 'aggregate.py', C + 'map.py', C + 'offset.py', C + 'piecewise.py'],
      [('steps', C + 'aggregate.py: Aggregate.x_next, x_previous'), ('steps of series', C + 'points.py: Points.x_next')],
      'random graphs; the reference steps over the merged lists of points', 
      'runtime monitoring: reference interpreter compared on every step'),
    P('C05', 'Sampling a curve over a domain gives its points there',
      'The samples of a curve over a domain are, in ascending order and without repetition, its points within that '
      'domain together with the bounds of the domain which it includes, each with the value of the curve there; a '
      'series gives its own points only. Sampling by a step gives every multiple of the step from the start, sampling '
      'from an x gives as many steps as asked for in the direction asked for while the curve has values. Infinite '
      'domains are refused.',
      ['inputs', 'histories'], 'for all graphs of curves and all open, closed, empty and infinite domains and steps',
      'The tests sample a few curves over closed domains; open bounds, bounds between points and ends that coincide '
      'with points are combinations which they do not reach.',
      [C + 'curve.py', C + 'points.py'], [('sampling', C + 'curve.py: Curve.sample_points, sample_points_from_x'),
                                         ('series', C + 'points.py: Points.sample_points, _domain_indexes')],
      'random graphs and functions, random open and closed domains', 
      'runtime monitoring: reference interpreter compared on every sampling'),
    P('C06', 'Arithmetic and maps of curves are pointwise',
      'The sum, difference, product, quotient, power, logarithm, negation, absolute value, inverse and map of curves, '
      'functions, lists and numbers, written as operators or methods and in either order, equal at every x the same '
      'operation on the values of the operands there. Where an operand of an arithmetic operation is missing, and '
      'outside of the intersection of the domains of the operands, the result is None. A division by zero gives '
      'infinity with the sign of the dividend.',
      ['inputs', 'programs'], 'for all expressions over curves and numbers and all x',
      'The tests combine two constants or lines; gaps, different domains, reflected operators and n-ary forms are '
      'reached by none.',
      [C + 'curve.py', C + 'aggregate.py', C + 'map.py'],
      [('n-ary operations', C + 'curve.py: Curve.add_many .. log_many'), ('value', C + 'aggregate.py: Aggregate.y'),
       ('maps', C + 'map.py: Map.y')],
      'random expressions; values within 1e-9', 'runtime monitoring: operands evaluated separately as the oracle'),
    P('C07', 'Minimum, maximum and first choose among the values which exist',
      'The minimum and maximum of several curves are at every x the smallest and largest of the values which exist '
      'there, the first is the value of the earliest listed curve which has one, and where none has a value the result '
      'is None. Their domain is the intersection of the operands, or for the first, and where empty curves are to be '
      'ignored, the interval spanned by all of them. Numbers count as curves which have that value everywhere.',
      ['inputs', 'programs'], 'for all lists of curves and numbers, both settings for empty curves and all x',
      'The tests use complete curves on one domain.',
      [C + 'curve.py', C + 'aggregate.py'], [('choices', C + 'curve.py: Curve.min, max, first'),
                                            ('domain', C + 'aggregate.py: Aggregate.get_domain')],
      'random operands', 'runtime monitoring: operands evaluated separately as the oracle'),
    P('C08', 'Derived curves always equal ones rebuilt from the current data',
      'After any sequence of edits of its sources, interleaved with any queries, every derived curve answers every '
      'query (value, step, domain, samples, slope, range) as the same graph of curves built from scratch on the '
      'current data would. This also holds while observers of the edited source are told of the end of the edit, and '
      'when they read curves and edit other sources. When an edit begins everything still answers as before it.',
      ['histories', 'programs'], 'for all graphs of curves, all histories of edits and queries, including those made by observers',
      'The tests update one or two curves once or twice; a stale cache needs a particular order of queries and edits '
      'and a particular chain of curves.',
      [C + 'scan.py', C + 'accumulator.py', C + 'curve.py', C + 'points.py', C + 'aggregate.py', C + 'map.py',
       C + 'extremas.py', C + 'extension/extension.py', C + 'sma.py', C + 'ema.py'],
      [('caches', C + 'scan.py: Scan.scan, begin_scan_update'), ('notifications', C + 'curve.py: Curve.begin_update, end_update')],
      'random graphs of up to about twelve curves and up to ten edits; differential against a rebuilt graph, so '
      'independent of the reference interpreter', 'runtime monitoring: differential oracle, live graph against rebuilt graph'),
    P('C09', 'Answers do not depend on the queries made before',
      'What a curve answers depends on the data and not on which queries it, or any curve it is derived from, was asked '
      'before, in which order or how often. This holds as well for queries asked between edits of the data.',
      ['histories'], 'for all graphs of curves and all orders of queries, with and without edits in between',
      'Each test asks its few questions in one order; the curves which accumulate compute lazily up to the x asked for '
      'and keep the result.',
      [C + 'scan.py', C + 'accumulator.py', C + 'accumulator_map.py', C + 'sma.py', C + 'extremas.py', C + 'extension/extension.py'],
      [('lazy scan', C + 'scan.py: Scan.scan')],
      'two copies of a random graph asked in two orders', 'runtime monitoring: differential oracle between two histories'),
    P('C10', 'Observers are told of every change, where it happened and when it is over',
      'Whenever an edit changes a value, a step or the domain of a curve, the observers of that curve are told that an '
      'update begins and, afterwards, that it ends, over intervals which contain every x whose value changed; both '
      'span the same interval, and an observer of a part of the curve is told when that part changed. When the '
      'edit is over no curve is left updating, and curves which do not depend on it were not told anything. An '
      'observer which reads the curve whenever it is told of an end has read the current values.',
      ['histories', 'programs'], 'for all graphs of curves and all histories of edits',
      'The tests check a few intervals of single curves; that the interval covers all changes depends on the points '
      'next to the edit and on every curve in between.',
      [C + 'curve.py', C + 'points.py', C + 'scan.py', C + 'map.py', C + 'offset.py', C + 'extension/extension.py'],
      [('notifications', C + 'curve.py: Curve.begin_update, end_update'), ('intervals', C + 'points.py: Points.set, replace, append_list')],
      'recorded notifications against the values of graphs rebuilt before and after the edit',
      'runtime monitoring: offline checker over recorded notifications'),
    P('C11', 'Observers are called as they were registered, until they are removed',
      'At each begin and end of an update of a curve every registered observer is called exactly once for each of its '
      'registrations, with the interval if its callback takes one, those with priority first and the others in the '
      'order of their registration; an observer of a domain only if the update touches that domain. Once '
      'removed, by its token, by its object, or because its object was released, it is not called again. This also '
      'holds when observers add or remove observers, themselves included, while they are called.',
      ['histories'], 'for all sequences of registrations, removals, releases of objects and updates of all kinds of curves',
      'The tests register one or two observers; order, priority, removal during a notification and released objects '
      'are left open.',
      [C + 'curve.py'], [('registry', C + 'curve.py: Curve.add_observer, remove_observer'),
                         ('calls', C + 'curve.py: Curve.begin_update, end_update')],
      'up to about fourteen observers on eight kinds of curves',
      'runtime monitoring: model of the registry checked against the recorded calls'),
    P('C12', 'An offset curve is the same curve at another place',
      'A curve moved by a number has at x + dx the value, the slope, the steps and the samples of the source at x, its '
      'domain is moved by the same amount, and offsets of offsets add up. Moving by a number of durations, calendar '
      'months and years included, moves the values at the steps of the duration to the corresponding later or earlier '
      'steps; between those steps the result lies on the straight line between them. Moving back gives the original, '
      'and both follow the edits of their source.',
      ['inputs', 'histories'], 'for all curves, offsets and durations and all x, before and after edits',
      'The tests move one series by one number or month.',
      [C + 'offset.py', C + 'curve.py'], [('offset', C + 'offset.py: Offset.y, get_domain, x_next, x_previous'),
                                        ('construction', C + 'curve.py: Curve.offset')],
      'random graphs, six durations from minutes to years, offsets of offsets',
      'runtime monitoring: reference interpreter, and series moved by hand as the oracle'),
    P('C13', 'An extension continues a curve beyond its ends and nothing else',
      'An extended curve equals its source, values and steps, within the domain of the source. Beyond the ends for '
      'which it was asked (the end, if nothing is said) it continues, without end, with the last value, the straight line '
      'through the last two points or fitted to the last points or period, or a sine with the last value and slope, '
      'stepping with the width of the last step; at an end for which it was not asked there is nothing. All of this '
      'follows the edits of the source.',
      ['inputs', 'histories'], 'for all curves, kinds and ends of extensions and all x, before and after edits',
      'The tests extend a few lines and series at their ends and look up one or two values beyond.',
      [C + 'extension/extension.py', C + 'extension/constant.py', C + 'extension/tangent.py', C + 'extension/sin.py',
       C + 'curve.py'],
      [('extension', C + 'extension/extension.py: Extension.y, get_domain, x_next, x_previous'),
       ('kinds', C + 'extension/tangent.py, sin.py, constant.py: update_extension')],
      'random graphs and series, up to tens of steps beyond',
      'runtime monitoring: reference interpreter, closed forms and least squares computed separately'),
    P('C14', 'An integral is the sum of the areas between the points',
      'At each point of its source an integral is the given constant plus the sum of the areas between '
      'all points up to there: trapezoids, or rectangles with the height of the point before or after as its '
      'interpolation says; an interval next to a missing value adds nothing. It starts at the first value of the source, is '
      'linear between points and follows the edits of its source. The area below a line between any two x has the '
      'closed form.',
      ['inputs', 'histories'], 'for all curves, constants, interpolations and orders of lookups, before and after edits',
      'The tests integrate one or two complete series once.',
      [C + 'integral.py', C + 'accumulator.py', C + 'scan.py', C + 'line.py'],
      [('accumulation', C + 'integral.py: Integral._integral_scan'), ('line', C + 'line.py: Line.partial_integration')],
      'series of up to forty points and random graphs; rational arithmetic for lines',
      'runtime monitoring: sums computed separately, linearity and inversion by the slope'),
    P('C15', 'A simple moving average is the mean height of its window',
      'At each point a simple moving average is the area below the straight lines through the points of its window '
      'divided by the width of that window, which ends at the point and holds the given number of points or spans the '
      'given period; it thus lies between the smallest and the largest value of the window. It has no value before the '
      'first complete window nor after the last point, is linear in between, and follows the edits of its source. '
      'Harmonic and centered averages are the same over degrees growing by powers of the golden ratio, the centered '
      'in descending order.',
      ['inputs', 'histories'], 'for all curves, degrees, periods and orders of lookups, before and after edits',
      'The tests compute one average over one series; the running sums depend on the order of lookups and on edits.',
      [C + 'sma.py', C + 'curve.py', C + 'scan.py'], [('average', C + 'sma.py: SMA'),
                                                     ('families', C + 'curve.py: Curve.harmonic_smas, centered_macs')],
      'series of up to sixty points and random graphs',
      'runtime monitoring: windows averaged separately, bounds by the data'),
    P('C16', 'Exponential averages and the relative strength follow their recurrence',
      'An exponential average starts with the first value, or the given initial value, and moves at '
      'each further point by the given fraction, or the width of the step over the given period, towards the value there; a smoothed average '
      'starts with the mean of its first values. The relative strength is 100 times the smoothed gains over the sum of '
      'smoothed gains and losses and lies between 0 and 100. None of this depends on the order of lookups, and it follows the edits '
      'of the source.',
      ['inputs', 'histories'], 'for all curves, factors, periods and orders of lookups, before and after edits',
      'The tests compute a few values of one series.',
      [C + 'ema.py', C + 'curve.py', C + 'accumulator.py'],
      [('recurrence', C + 'ema.py: EMA._ema_scan'), ('smoothed, strength', C + 'curve.py: Curve.smma, rsi')],
      'series of up to forty points and random graphs',
      'runtime monitoring: recurrences computed separately'),
    P('C17', 'Functions of the latest values see exactly the window',
      'A trailing minimum, maximum or any other function of the latest values gives at each point the function of '
      'exactly the values of the last points, as many as asked for or those within the given period up to and '
      'including its start, newest first; at the beginning the window is not full. Between points it interpolates as '
      'asked for. It does not depend on the order of lookups and follows the edits of its source.',
      ['inputs', 'histories'], 'for all curves, functions, window sizes and orders of lookups, before and after edits',
      'The tests look at one window size on one short series.',
      [C + 'accumulator_map.py', C + 'accumulator.py', C + 'curve.py'],
      [('window', C + 'accumulator_map.py: AccumulatorMap'), ('trailing', C + 'curve.py: Curve.trailing_min, trailing_max')],
      'series of up to thirty points and random graphs', 'runtime monitoring: windows cut from the list of points'),
    P('C18', 'The extremes of a curve are the turning points around its reference',
      'The extremas of a curve around a reference are the most extreme point of each run of points at one side of the '
      'reference (farther from it than the given fraction of it), the first of equals, once a point at the other side '
      'has followed. Between them the curve of extremas is linear, outside of the first and last one it is None, its '
      'steps and samples are the extremas. All of this follows the edits of curve and reference and does not depend on '
      'the order of lookups.',
      ['inputs', 'histories'], 'for all pairs of curves and references, deviations, edits and orders of lookups',
      'The tests look at one short series with one reference; which point is confirmed depends on the whole course of '
      'the curve and, in the code, on a scan that goes on and is rewound.',
      [C + 'extremas.py', C + 'scan.py'], [('extremas', C + 'extremas.py: Extremas._extrema_scan, _confirm_extrema'),
                                          ('scan state', C + 'scan.py: Scan')],
      'series of up to forty points with constants, series and averages as references',
      'runtime monitoring: turning points cut from the list of points'),
    P('C19', 'Piecewise, blended and restricted curves take their values from the right part',
      'A piecewise curve has at each x the value of the piece whose domain, with its open and closed bounds, '
      'contains x, and None in gaps and outside; its points are the bounds of the pieces and their points within. A '
      'blend is the first curve before the start of the blend, the second from its end, and the straight mix of both, '
      'by position, in between. A subset equals its curve within its domain and is None outside.',
      ['inputs', 'histories'], 'for all pieces, bounds, gaps, curves, intervals of blending and x, before and after edits',
      'The tests join two or three functions and look up a few x; bounds and gaps, and missing values in '
      'the operands of a blend, are left open.',
      [C + 'piecewise.py', C + 'generic.py', C + 'curve.py'],
      [('pieces', C + 'piecewise.py: Piecewise.y, x_next, x_previous'), ('blend, subset', C + 'curve.py: Curve.blend, subset')],
      'up to six pieces of all kinds of curves and random graphs',
      'runtime monitoring: reference interpreter compared on every lookup, step and sample'),
    P('C20', 'A descriptor builds the same curve as the calls it describes',
      'A curve parsed from a descriptor equals the one built by calling the named methods with '
      'the same arguments: chained, nested, with named arguments and with arguments listed under @args. Numbers, functions, lists of points and '
      'None parse to the curves they stand for. Within @log, @log2 and @log10 the numbers are taken to log space '
      'and the result is brought back, within @date strings stand for times. The descriptor is not '
      'changed by parsing, and one that names no function, or several in one step, is refused.',
      ['inputs', 'programs'], 'for all descriptors over the methods of curves',
      'The tests parse a dozen fixed descriptors.',
      [C + 'curve.py'], [('parser', C + 'curve.py: Curve.parse, parse_descriptor')],
      'random chains of up to a few steps with nested operands; the direct calls are the oracle',
      'runtime monitoring: two curves from two notations compared on lookups, domains and samples'),
    P('C21', 'Quotes show, at any time, the last quote so far',
      'Looking up quotes gives the last quote at or before x, and each field curve (open, high, low, close, volume, middle) '
      'the field of that quote. The quotes over a domain are those whose span of time overlaps '
      'it (or, if a step is given, the quotes at each step), their range goes from the lowest low to the highest high, first, last and steps are those of the list of quotes. This follows '
      'settings and appends of quotes, also with months. The awesome oscillator, the alligator and trailing highs and '
      'lows are the averages, minima and maxima of the fields of the quotes.',
      ['inputs', 'histories'], 'for all series of quotes, resolutions, edits, times and domains',
      'The tests set a few quotes once and look at the fields at their dates.',
      [C + 'quotes.py'], [('lookup', C + 'quotes.py: Quotes.y, sample_points, get_range'), ('edits', C + 'quotes.py: Quotes.set, append'),
                          ('indicators', C + 'quotes.py: Quotes.ao, alligator, trailing_high, trailing_low')],
      'series of up to fifty quotes from minutes to months', 'runtime monitoring: list of quotes as the oracle'),
    P('C22', 'Lines, sines, constants and functions are their formulas',
      'A line has the values of the straight line it was given by two points, by slope and constant, or by slope and point; '
      'its inverse, slope and constant belong to the same line. A sine is amplitude * sin(2 * pi * x / period + phase), '
      'the phase given as an angle or as a distance in x; a constant its number, a function curve the function, each within its domain and None outside, an empty '
      'curve nothing. Setting other parameters gives the curve built with them, and observers are told.',
      ['inputs', 'histories'], 'for all parameters, in all combinations, and all x',
      'The tests use one or two combinations of round numbers.',
      [C + 'line.py', C + 'sin.py', C + 'constant.py', C + 'generic.py', C + 'empty.py'],
      [('line', C + 'line.py: Line.set'), ('sine', C + 'sin.py: Sin.set')],
      'random parameters and sequences of settings; closed forms', 'runtime monitoring: closed forms compared on every lookup'),
    P('C23', 'Slopes, ends, ranges and regressions are those of the points',
      'The slope of a curve at x is that of the line to its next, or previous, point; a differential has it as '
      'its value. First, last, next and previous points, start and end values and the range of a domain '
      '(smallest and largest sample) are those of the points of the curve, or of its samples by the step given. A regression over a domain is the least squares line '
      'through the samples there, and None if there are fewer than two or a value is missing.',
      ['inputs', 'histories'], 'for all curves, x and domains, before and after edits',
      'The tests look at slopes and ranges of one or two series.',
      [C + 'curve.py', C + 'map.py', C + 'points.py'],
      [('slopes', C + 'curve.py: Curve.d_y'), ('differential', C + 'map.py: Differential'),
       ('range', C + 'curve.py: Curve.get_range'), ('regression', C + 'curve.py: Curve.regression')],
      'random graphs and domains', 'runtime monitoring: reference interpreter and separate least squares'),
    P('C24', 'Minimise and maximise walk to the first extreme and no further',
      'Minimise walks from an x downhill, maximise uphill, over the points, or by the given step or minimum step, of a strictly varying '
      'curve and gives the first local extreme on the way: the x itself if it is one, and from an opposite extreme it '
      'takes the steeper side. If the walk ends at the edge of the curve or starts outside of it there is no '
      'result. After the allowed number of iterations it stops where it is. Of a smooth curve the result lies within a '
      'step of the extreme.',
      ['inputs'], 'for all strictly varying series, parabolas, starting points and steps',
      'The tests search one or two curves from one start.',
      [C + 'curve.py'], [('search', C + 'curve.py: Curve.minimise, maximise')],
      'random series with up to tens of extremes', 'runtime monitoring: walk over the list of points'),
    P('C25', 'Trend lines are what was asked of them and depend on the data alone',
      'Every trend line given for an x goes, in ascending order, through at least the asked number of points of the '
      'curve, at the asked distance, is as wide as asked, is the least squares line through them, and reaches x, as far as the asked multiple of its width; '
      'tangent points lie within the tolerance. Where tops (bottoms) of a series lie on a straight line and the curve is clearly '
      'below (above) it in between, exactly one upper (lower) trend line goes through them. The mirrored and the scaled series has the mirrored and '
      'scaled lines. All of this follows edits of the curve and does not depend on earlier lookups.',
      ['inputs', 'histories'], 'for all series, tolerances, distances and widths, edits and orders of lookups',
      'The existing tests of trends are disabled.',
      [C + 'trend.py'], [('search', C + 'trend.py: Trend._trend_scan, continue_scan'),
                         ('line', C + 'trend.py: TrendLine.update_trend, set_trend_with_boundary_points')],
      'series of up to thirty points',
      'runtime monitoring: invariants of each line, metamorphic relations and planted trends'),
    P('C26', 'An exception of the user\'s code leaves no trace in the curves',
      'When a function which the user passed in, or a source curve, raises an exception in the middle of a question '
      '(lookup, step, sampling), the exception reaches the one who asked, and afterwards every curve answers every '
      'question as if nothing had failed, however often and wherever it failed and also after further edits. The '
      'same holds for quotes whose encoder raises: they stay as they were.',
      ['fault_sequences', 'histories'], 'for all graphs of curves, all questions and all points at which an exception occurs',
      'No test raises an exception in a function; curves which scan, accumulate or cache have state which is half way '
      'at some of these points only.',
      [C + 'scan.py', C + 'accumulator.py', C + 'accumulator_map.py', C + 'extension/extension.py', C + 'extremas.py',
       C + 'sma.py', C + 'ema.py', C + 'curve.py', C + 'quotes.py'],
      [('scan', C + 'scan.py: Scan.scan'), ('accumulation', C + 'accumulator.py: Accumulator._accumulate'),
       ('extension', C + 'extension/extension.py: Extension._update_extension_if_needed')],
      'exceptions at up to the fortieth call of functions and of lookups and steps of sources',
      'runtime monitoring: fault injection, graphs in which nothing failed as the oracle'),
    P('C27', 'A trend line tells where the curve touches, leaves and crosses it',
      'A trend line through tops (bottoms) of a series tells, within its reach: one touching point for each run of points '
      'within the tolerance of the line, the closest; one crossing, on the line, wherever adjacent points lie on opposite '
      'sides of it beyond the tolerance; the highest point of each stretch above and the lowest of each below. '
      'The line can be extended to a crossing counted from either end, to a multiple of its length and up to a width, but not beyond the next crossing. '
      'The prediction follows from these: after at least the asked number of touches comes a crossing, '
      'then a touch in time from the other side, then a point beyond the line from the origin through the extreme reached before, '
      'and it is fulfilled when the target (crossing plus the golden ratio squared times the distance of the extreme) '
      'is reached in time; its phase, points, target and failure are as these rules have it, whatever was asked before.',
      ['inputs', 'histories'], 'for all series which touch, leave and cross a line, reaches, tolerances and required touches',
      'The existing tests of trends are disabled; the state of a line is carried from point to point.',
      [C + 'trend.py'], [('points of interest', C + 'trend.py: TrendLine.update_points_of_interest'),
                         ('prediction', C + 'trend.py: TrendLine.update_prediction'),
                         ('extended line', C + 'trend.py: TrendLine.line_extended')],
      'series of up to fifty points; a curve passing from one side to the other at a touching point is left out',
      'runtime monitoring: points of interest and prediction worked out from the list of points'),
    P('C28', 'Aggregates and accumulators give a function what the curves have',
      'An aggregate gives at every x of its domain what its function makes of x and the values of its curves there, in their '
      'order and with None for the missing ones, or the list of these values if it has no function; outside, it gives its '
      'default. Its domain is the intersection of those of its curves, or as a union the interval they span. An accumulator '
      'gives at each point of its curve what its function makes of x, the value there (None if missing) and the result at '
      'the point before (None at the first), and between points it interpolates as asked; the function is called point by '
      'point in ascending order, not twice for a point while the data stay as they are, whatever is asked in which order. '
      'After edits the results are those of the changed data.',
      ['inputs', 'histories'], 'for all lists of curves, functions, defaults, interpolations, orders of questions and edits',
      'The tests sum two curves and accumulate one; missing values, defaults, repeated curves, gaps in the results and '
      'questions between edits are left open.',
      [C + 'aggregate.py', C + 'accumulator.py', C + 'scan.py'],
      [('values', C + 'aggregate.py: Aggregate.y'), ('domain', C + 'aggregate.py: Aggregate.get_domain'),
       ('accumulation', C + 'accumulator.py: Accumulator._accumulate'), ('scan', C + 'scan.py: Scan.scan')],
      'up to five curves, series of up to 120 points, four rounds of edits',
      'runtime monitoring: recording user functions; lists of points as the oracle'),
]


def write():
    have = [p for p in PROPS if os.path.exists(os.path.join(ROOT, 'curvemon', 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in have:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
            }) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': f'bash run.sh {p["id"]} --tier quick',
            'thorough_cmd': f'bash run.sh {p["id"]} --tier thorough',
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': p['note'],
        } for p in have],
        'not_applicable': [],
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(have), 'properties')
    for p in have:
        assert len(p['title']) <= 80, p['id']
    

write()
