#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from the table below; only the
properties having a check in mc/props are claimed"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

CV, IR, CR = ('dcf/curves/curve.py', 'dcf/curves/interestratecurve.py',
              'dcf/curves/creditcurve.py')
VO, FX, IP = ('dcf/curves/volatilitycurve.py', 'dcf/curves/fx.py',
              'dcf/interpolation.py')
PR, CF, CO, PO = ('dcf/pricer.py', 'dcf/cashflows/cashflow.py',
                  'dcf/cashflows/contingent.py', 'dcf/cashflows/payoffs.py')
PD, OP = 'dcf/cashflows/products.py', 'dcf/models/optionpricing.py'
MO = ['dcf/models/bachelier.py', 'dcf/models/black76.py',
      'dcf/models/displaced.py', 'dcf/models/intrinsic.py',
      'dcf/models/distibutions.py']

# id, title, statement, over, quantifier text, why tests can't,
# files, mechanism [(name, where)], technique, level note
P = []


def p(*a):
    P.append(a)


p('C01', 'Interpolation hits its data and follows its rule between and outside',
  'Every interpolation function reproduces the given values at the given '
  'points, whatever the order in which the points are given, and between '
  'points gives the value its name promises (constant left or right, nearest, '
  'linear, linear in the logarithm, linear or constant in the log rate, zero '
  'outside or error where there is no data). An interpolation scheme uses its '
  'left, mid and right function exactly before, within and after the range '
  'of the points. A function built from a dictionary, from lists or by its '
  'name is the same function, and membership and copying agree with the data.',
  ['inputs'], 'all sets of points, values, orders of points and arguments',
  'Tests use a handful of sorted sample grids and compare with few numbers.',
  [IP], [('interpolation functions', IP), ('interpolation_scheme', IP)],
  'exhaustive bounded enumeration (explicit-state) of point sets, orders and '
  'query points on the real code in lockstep with a reference',
  'all subsets of a six point alphabet with all values of a four value '
  'alphabet in all orders; ties, midpoints, neighbours, outside')
p('C02', 'Curves behave as a map of points under any history of edits',
  'After any sequence of adding, overwriting and failing edits of points, of '
  'setting or removing a spread curve and of fixing values, a curve gives at '
  'its dates exactly the stored (or fixed) value plus the spread, between '
  'and outside what its interpolation makes of all currently stored points, '
  'and its domain, membership and iteration are exactly its current dates. '
  'Setting a point changes neither the value at any other stored point nor '
  'turns spread or fixings into stored data. Curves built from the same lists '
  'or sharing a spread never influence each other.',
  ['histories'], 'all histories of edits and reads of curves of every class '
  'and date type', 'Tests edit a curve once or never; the interplay of '
  'edits, spread, fixings and cached interpolation needs sequences.',
  [CV, IR, CR, VO], [('Price/Curve/DateCurve __call__, __setitem__, spread, '
                      'fixings', CV)],
  'explicit-state exploration of all edit histories up to a depth, real '
  'curve in lockstep with an immutable model after every step',
  'depth 2 for all classes and axes, depth 3 for six classes (thorough 3/4)')
p('C03', 'Curve arithmetic is point-wise on all dates of both curves',
  'The sum, difference, product and quotient of two curves (of the same '
  'origin, without spread and fixings) have the dates of '
  'both curves and at each of them exactly the sum, difference, product or '
  'quotient of what the two curves give there, each by its own interpolation '
  'and day count. The result has the type, origin, day count, interpolation '
  'and forward tenor of the first curve and both operands stay unchanged. '
  'Results can be used in further arithmetic.',
  ['programs', 'inputs'], 'all pairs of curves with the same origin, all '
  'operators, nested expressions',
  'Tests add curves on equal grids; the union of different grids, single '
  'dates and different interpolations are not met.',
  [CV], [('__add__, __sub__, __mul__, __truediv__', CV)],
  'explicit-state exploration of all expressions up to depth two over all '
  'pairs of grids, in lockstep with a model',
  'all pairs of subsets of four dates, four operators, depth two')
p('C04', 'Curves are reproduced by their keyword arguments',
  'For every curve the keyword arguments it reports build, passed to its '
  'class, a curve with the same dates, values, origin, day count, tenor, '
  'yield and interpolation, however these were given (by name, function, '
  'class, as tuple or by default). The copy gives the same values at all '
  'dates, reports the same arguments again and is independent of later edits '
  'of the original.',
  ['inputs', 'configurations'], 'all curves of all classes and all ways of '
  'giving their arguments', 'Tests rebuild one default curve per class.',
  [CV, IR, CR], [('kwargs', CV), ('default probability kwargs', CR)],
  'exhaustive enumeration of class x axis x grid x configuration on the real '
  'code against the original and a model',
  '14 configurations of each class, 4 grids, 4 date types')
p('C05', 'Casting a curve keeps what it represents',
  'Casting a curve to another representation of the same family (zero rates, '
  'discount factors, cash rates, short rates; flat intensities, survival and '
  'default probabilities, hazard rates, marginal survival; curves by date) '
  'gives a curve which at each of its dates stores exactly what the original '
  'curve represents there, including its spread. Origin, day count and '
  'forward tenor are kept, and so are chains of casts and casts onto a given '
  'new set of dates. The curve cast from is not changed.',
  ['programs', 'inputs'], 'all curves and all chains of casts',
  'Tests cast default curves with the default day count and origin only.',
  [CV, IR, CR], [('cast', CV), ('_get_storage_type of each representation',
                               IR)],
  'explicit-state exploration of all cast chains up to a depth in lockstep '
  'with a model of what each representation stores',
  'chains up to length 2 over 4 resp. 5 representations')
p('C06', 'Discount factors, zero, short and cash rates are one consistent view',
  'For every interest rate curve, whatever is stored (zero rates, discount '
  'factors, short rates, cash rates), the discount factor, zero rate, short '
  'rate, cash rate and swap annuity of any dates are those of the one '
  'discount function given by the stored data, interpolation, day count, '
  'origin and spread. Discount factors satisfy the product rule '
  'df(x,z) = df(x,y) df(y,z); zero rates are continuous compounding and cash '
  'rates simple compounding of discount factors. Results do not depend on '
  'the order of given points nor on the identity of date objects.',
  ['inputs', 'configurations'], 'all curves, all pairs and triples of dates '
  'inside and outside the given dates', 'Tests sample few default curves and '
  'dates within the domain, often via the same formula as the code.',
  [IR, 'dcf/compounding.py'], [('get_discount_factor, get_zero_rate, '
                                'get_cash_rate, get_short_rate, '
                                'get_swap_annuity', IR)],
  'exhaustive enumeration of curves x ordered date pairs/triples on the real '
  'code against an independent model of the discount function',
  'all ordered pairs of about ten dates per curve; 4 classes, 4 date types')
p('C07', 'Survival probabilities, intensities and hazard rates are consistent',
  'For every credit curve, whatever is stored (flat intensities, survival or '
  'default probabilities, hazard rates, marginal probabilities), survival '
  'probability, flat intensity and hazard rate of any dates are those of the '
  'one survival function given by the stored data, interpolation, day count, '
  'origin and spread. Survival probabilities satisfy the product rule, are 1 '
  'for an empty period and stay within [0, 1] and fall in time for proper '
  'data, including certain survival and certain default.',
  ['inputs', 'configurations'], 'all curves, all pairs and triples of dates',
  'Tests sample few default curves and dates.',
  [CR], [('get_survival_prob, get_flat_intensity, get_hazard_rate', CR)],
  'exhaustive enumeration of curves x ordered date pairs/triples on the real '
  'code against an independent model of the survival function',
  'all ordered pairs of about ten dates per curve; 6 classes, 4 date types')
p('C08', 'Forward price curves interpolate given and extrapolate spot prices',
  'A forward price curve gives its stored prices at the given dates, '
  'interpolates between them, and after the last date (the latest, whatever '
  'the order) extrapolates the last price by its yield (none, constant or '
  'interest rate curve); a fx forward curve does so by the ratio of domestic '
  'and foreign discount factors. This holds after any history of storing '
  'further prices, fixing prices and replacing the yield. Keyword arguments '
  'reproduce the curve.',
  ['histories', 'inputs'], 'all histories of edits, all yields and dates',
  'Tests use sorted grids with one yield and no later edits.',
  [CV, FX], [('ForwardCurve', CV), ('FxForwardCurve', FX)],
  'explicit-state exploration of edit histories in lockstep with a model',
  'depth 2 (thorough 3), 7 kinds of yield, 9 pairs of fx curves')
p('C09', 'A fx container stays consistent under any history of additions',
  'After any history of adding and re-adding currencies to a foreign exchange '
  'container the rate of each pair of currencies at each date is the '
  'reciprocal of the rate of the reversed pair, and rates triangulate via '
  'any third currency. Rates follow the latest spot rate and curve given. '
  'Refused additions change nothing.',
  ['histories'], 'all histories of adding and re-adding currencies',
  'Tests build one container and never re-add a currency.',
  [FX], [('FxContainer.add', FX)],
  'explicit-state exploration of all histories of add operations, all pairs '
  'and triples checked in each state',
  'depth 3 (thorough 4) of 12 operations, 4 currencies')
p('C10', 'Present value is the discounted sum of the remaining cashflows',
  'The present value of any cashflow list, of any payoff and of lists of '
  'lists is the sum over all payment dates on or after the valuation date of '
  'the expected cashflow times the discount factor from valuation to payment '
  'date; payments before the valuation date count nothing. It is additive '
  'over legs, does not depend on the order of payment dates and is the same '
  'when repeated.',
  ['inputs'], 'all cashflow lists, discount curves and valuation dates',
  'Tests value few sorted lists at few valuation dates.',
  [PR, CF, CO, PO], [('get_present_value', PR)],
  'exhaustive enumeration of list x curve x valuation date on the real code '
  'against independent cashflows and discount factors',
  '16 kinds of lists, 5 sets of payment dates, 14 valuation dates, 5 curves')
p('C11', 'Pricing functions leave lists, curves and models as they were',
  'No pricing function (present value, yield, fair rate, accrued interest, '
  'basis point value, bucketed delta, curve fit) changes the cashflow lists, '
  'discount, forward or delta curves and payoff models given to it: after it '
  'returns all of them give the same values as before. The same is true if '
  'it fails at any point, for an error raised in a curve or a model or for a '
  'missing solution. Curves which already have a spread keep it.',
  ['fault_sequences', 'inputs'], 'all pricing functions, arguments and points '
  'of failure', 'No test looks at arguments after an error, few do after '
  'success.',
  [PR], [('get_fair_rate, get_basis_point_value, get_bucketed_delta, '
          'get_curve_fit', PR)],
  'exhaustive fault injection: an error is raised at each n-th call of a '
  'curve or model during each pricing function',
  'every call point of every scenario (quick: the first 60, then each 7th)')
p('C12', 'Yield, fair rate and curve fit reproduce the given present values',
  'The yield to maturity, discounting at it, gives the present value asked '
  'for; the fair rate, set as fixed rate, gives the present value asked for; '
  'the rates of a fitted curve give the present values of all instruments '
  'fitted to, each up to the requested precision. A solution within the '
  'bounds is found wherever it lies, and if there is none within the bounds '
  'an error is raised rather than a wrong number returned.',
  ['inputs'], 'all lists, present values, bounds, precisions, orders of '
  'instruments and of grid dates',
  'Tests solve a few ordinary cases with default bounds.',
  [PR], [('get_yield_to_maturity, get_fair_rate, get_curve_fit', PR),
         ('simple_bracketing', PR)],
  'exhaustive enumeration of lists x planted solutions x bounds x precision '
  'on the real code, re-priced by an independent model',
  'planted solutions over the whole range of bounds; 4 date types')
p('C13', 'Basis point value and bucketed delta are exact and add up',
  'The basis point value is the change of the present value when all rates '
  'of the delta curve (or curves) rise by one basis point in parallel. The '
  'bucketed deltas are the changes if only the rate around one grid date '
  'rises, fading out linearly to its neighbours and constant beyond the '
  'ends; for any grid their sum is the basis point value up to second order. '
  'This holds for any order of grid dates, for the default grid and for '
  'discount as well as forward curves as delta curve.',
  ['inputs'], 'all lists, curves, grids and valuation dates',
  'Tests check one list and the default grid.',
  [PR], [('get_basis_point_value, get_bucketed_delta', PR)],
  'exhaustive enumeration of lists x curves x grids on the real code against '
  'a model with shifted curves',
  'all bucket grids of up to 5 dates incl. unsorted ones')
p('C14', 'Interest accrued is the elapsed share of the current period',
  'The interest accrued at a valuation date is, summed over all legs, the '
  'cashflow of the period which has started before and has not ended before '
  'that date, times the elapsed share of the period by the day count of the '
  'list; it is zero outside of all periods and for lists without interest. '
  'It grows from zero to the full cashflow over each period. Pay offsets '
  'move the payment, not the period.',
  ['inputs'], 'all lists and valuation dates', 'Tests look at one list.',
  [PR, CF], [('get_interest_accrued', PR)],
  'exhaustive enumeration of lists x all valuation dates against a model',
  '12 kinds of lists; 5 sets of payment dates; all grid and between dates')
p('C15', 'Rate cashflows are amount, year fraction and fixed plus float rate',
  'For each payment date a rate cashflow list pays amount times year '
  'fraction of the accrual period times the fixed rate plus, if there is a '
  'forward curve, the forward rate at the fixing date. Periods join without '
  'gap from the origin (or one period length before the first date) to the '
  'last date, moved by fixing and pay offset. Calling the list, item '
  'access, table and lists of legs show the same amounts, sums and dates, '
  'also for a single or no payment.',
  ['inputs', 'configurations'], 'all payment dates, amounts, origins, '
  'offsets, day counts and forward curves',
  'Tests check lists with default conventions.',
  [CF, PO], [('RateCashFlowList', CF), ('RateCashFlowPayOff', PO)],
  'exhaustive enumeration of list configurations against an independent '
  'schedule and cashflow model',
  'all subsets of payment dates x conventions x forward curves')
p('C16', 'Contingent payoffs are the options they are made of',
  'A capped rate pays the floating minus the option on exceeding the cap, a '
  'floored rate pays the floating plus the option on falling below the '
  'floor, a collar both, and hence the rate stays within cap and floor in '
  'the intrinsic and expired case. An option strategy pays the sum of its '
  'calls and puts with their amounts and strikes, and option lists pay '
  'amount times option value of the model at the fixing date. Without cap '
  'and floor the list pays as the plain rate list.',
  ['inputs', 'configurations'], 'all strikes, amounts, dates, models and '
  'valuation dates', 'Tests check one strategy per kind.',
  [CO, PO], [('ContingentRateCashFlowPayOff', PO),
             ('OptionStrategyCashFlowPayOff', PO)],
  'exhaustive enumeration of payoffs x models x fixing and valuation dates '
  'against an independent option formula',
  'all signed combinations of up to 3 options out of 6, all cap/floor pairs')
p('C17', 'Option prices are the model price and free of arbitrage',
  'Option prices of each model (normal, log normal, displaced log normal, '
  'intrinsic, from function) are the closed formula of that model. '
  'Call minus put is forward minus strike, prices are never below intrinsic '
  'value, calls fall and puts rise in strike, both are convex in strike and '
  'rise in volatility and time. Expired options and zero volatility give '
  'intrinsic value.',
  ['inputs'], 'all strikes, forwards, volatilities and expiries',
  'Tests sample few strikes and check against the code itself.',
  [OP] + MO, [('get_call_value, get_put_value', OP), ('model formulas', MO[0])],
  'exhaustive enumeration of a lattice of strikes, forwards, volatilities, '
  'expiries and models on the real code against erf based formulas',
  'lattice of 13 strikes x 7 forwards x 6 volatilities x 7 expiries')
p('C18', 'Option sensitivities are the derivatives of the option price',
  'Delta, gamma, vega and theta of calls and puts are for each model the '
  'first and second derivative by forward and the derivatives by volatility '
  'and time of its option price in the documented scale, whether by closed '
  'formula or by bump. Call and put sensitivities obey the derivative of '
  'put-call parity. Expired options and zero volatility give finite values.',
  ['inputs'], 'all strikes, forwards, volatilities and expiries',
  'Tests compare closed formula and bump at few points.',
  [OP] + MO, [('get_call_delta ... get_put_theta', OP)],
  'exhaustive enumeration of a lattice of option data on the real code '
  'against independent closed formulas',
  'lattice of strikes x forwards x volatilities x expiries x models')
p('C19', 'Binary options pay one unit and obey their parity',
  'Binary calls and puts are worth the model probability of ending above '
  'resp. below the strike, are within [0, 1], sum to one, and are the '
  'derivative of the vanilla price by strike; expired ones pay one or '
  'nothing. Their sensitivities are the derivatives of the binary price.',
  ['inputs'], 'all strikes, forwards, volatilities and expiries',
  'Tests touch the binary models at one or two points.',
  [OP] + MO, [('binary option pricing formula', OP)],
  'exhaustive enumeration of a lattice of option data against independent '
  'formulas', 'lattice of strikes x forwards x volatilities x expiries')
p('C20', 'Redemption and outstanding plans are consistent',
  'For any amount, number of periods and rate the redemption plans add up to '
  'the amount (given by the plan), the outstanding is what is not yet '
  'redeemed before each period, and the annuity plan has equal total '
  'payments of interest and redemption. Bullet, constant, consumer and '
  'saving plans give their documented series of the right length, for any '
  'sign of amount and rate incl. zero.',
  ['inputs'], 'all numbers of periods, amounts, rates',
  'Tests check two plans for one number of periods.',
  ['dcf/plans.py'], [('plans', 'dcf/plans.py')],
  'exhaustive enumeration of lengths, amounts and rates with exact rational '
  'reference', 'lengths up to 40, 6 amounts, 9 rates')
p('C21', 'Compounding and its inverse agree, day counts are additive',
  'Each compounding rule (simple, continuous, periodic) maps a rate and a '
  'year fraction to a factor such that its inverse gives back the rate, the '
  'factor is the documented formula and equals one for no time. The default '
  'day count is additive, antisymmetric, zero for equal dates and the same '
  'for equal points given as date, business date or number.',
  ['inputs'], 'all rates, year fractions, dates',
  'Tests check few rates and dates.',
  ['dcf/compounding.py', 'dcf/daycount.py'],
  [('compounding', 'dcf/compounding.py'), ('day_count', 'dcf/daycount.py')],
  'exhaustive enumeration of a lattice of rates, times and all triples of '
  'dates', 'all triples of 12 dates per date type; 15 rates x 15 times')
p('C22', 'Rating classes are a bijection of default rates and mixtures',
  'Each default probability up to one between two master scale grades is the '
  'mixture of the neighbouring grades with weights which are within [0, 1], '
  'sum to one and reproduce the probability, and the grade itself at its '
  'own probability. Outside of the scale there is an error or, for a sloppy '
  'rating class, the share of the nearest grade. The order of rating classes '
  'is the order of probabilities.',
  ['inputs'], 'all probabilities and master scales',
  'Tests check few probabilities of the default scale.',
  ['dcf/ratingclass.py'], [('RatingClass', 'dcf/ratingclass.py')],
  'exhaustive enumeration of scales x probabilities on the real code with a '
  'reference', 'all grades, all ties, midpoints, neighbours, extremes')
p('C23', 'Volatility curves agree on terminal and instantaneous volatility',
  'A terminal volatility curve gives its interpolated volatility up to any '
  'date, and between two dates the volatility whose variance is the '
  'difference of both variances (an error if that is negative, or the floor '
  'of the class if there is one); an '
  'instantaneous volatility curve gives between two dates the average of its '
  'interpolated volatility. A curve cast onto given dates gives there the '
  'volatility of the original; the volatility of reversed dates is zero.',
  ['inputs', 'configurations'], 'all curves, interpolations, origins, day '
  'counts, date types and pairs of dates',
  'Tests sample few dates with the default day count.',
  [VO], [('get_terminal_vol, get_instantaneous_vol', VO)],
  'exhaustive enumeration of curves x date pairs against a model',
  'all ordered pairs of 12 dates per curve')
p('C24', 'Products have the cashflows their terms promise',
  'Bonds and swaps roll their payment dates back from maturity (date or '
  'period) by whole periods to the start (short first period), adjusted by '
  'convention and holidays for business dates, and pay notional exchanges '
  'and coupons of the right sign by notional or redemption plan, fixed rate, '
  'forward rate, day count and offsets; a floater on its own curve is worth '
  'nothing at start.',
  ['inputs', 'configurations'], 'all start and maturity dates, periods, '
  'rates, plans and date types', 'Tests build one product of each kind.',
  [PD], [('bond, interest_rate_swap', PD)],
  'exhaustive enumeration of product terms against an independent calendar, '
  'schedule and cashflow model', 'all terms of the listed alphabets')
p('C25', 'Integral and derivative of a curve are those of its graph',
  'The integral of a curve between two different dates is the area below the '
  'values the curve gives, incl. its spread, measured by its day count and '
  'divided by the length of the period (its average), up to the accuracy of '
  'numerical integration; areas of adjoining periods add up (forward '
  'price curves up to their last date). The derivative at a business date is '
  'the slope of its graph there.',
  ['inputs'], 'all curves, interpolations, pairs and triples of dates',
  'No test integrates a curve directly.',
  [CV], [('integrate, derivative', CV)],
  'exhaustive enumeration of curves x date pairs against exact areas and '
  'slopes of a reference', 'all ordered pairs of nine dates per curve')
p('C26', 'Rate tables show the rates of the curve',
  'A rate table of a curve has a row for each date of its domain and its '
  'origin (or each given date), sorted, and shows for each given or default '
  'term (in increasing order) the value the curve gives that term after the '
  'date, as long as this is before the date of the next row. It works for '
  'each type of date and leaves the curve as it is.',
  ['inputs'], 'all curves, grids, terms', 'No test checks its contents.',
  [CV], [('rate_table', CV)],
  'exhaustive enumeration of curves x grids x terms against the curve',
  'all classes, 4 date types')
p('C27', 'Everything derived depends on the current state only',
  'After any history of edits and reads (points, spread, fixings and yield '
  'curves of curves; fixed rate, forward curve and payoff model of cashflow '
  'lists and legs; parameters of option models) every derived quantity is '
  'what a newly built object with the same state gives. Reading in any '
  'order, and again, changes nothing. Editing one object never influences '
  'another one which does not refer to it.',
  ['histories', 'inputs'], 'all edit and read histories of all classes',
  'Tests build objects, read them once and rarely edit them.',
  [CV], [('__setitem__, spread, fixings', CV)],
  'exhaustive exploration of edit and read histories on the real code '
  'against newly built objects', 'depth 2 (thorough 3), all classes')
p('C28', 'Wrong input is refused, never turned into numbers',
  'Wrong input of constructors and functions (unequal numbers of points, '
  'amounts, strikes or prices; repeated points in interpolation schemes; non '
  'positive values for logarithmic interpolation; unknown names; data next to '
  'a curve; a second spread; contradicting periods; missing items; wrong '
  'types of legs, fx or notional; ratings outside a scale; unreachable '
  'targets) raises an exception. Existing objects stay as they were, and the '
  'same call with right input works.',
  ['inputs'], 'all kinds and positions of wrong input',
  'Tests check few kinds of wrong input.',
  ['dcf'], [('__init__', CV), ('__init__', CF)],
  'exhaustive enumeration of wrong inputs x positions x classes on the real '
  'code', 'all classes, lengths 0-4, each position')

p('C29', 'Tables and details of cashflows explain them',
  'Each row of the table of a cashflow list (rates, caps, floors, collars, '
  'options, strategies, plain amounts, legs) shows pay date, terms and market '
  'data (notional, accrual period, year fraction, fixed and forward rate, '
  'fixing date, strike, put/call, volatility, valuation date, expiry) as '
  'they are in list, curves and model, and the cashflow shown is what these '
  'entries give. Details of a payoff show the same. Lists of legs show the '
  'sum per date.',
  ['inputs'], 'all kinds of lists, forwards, models, offsets',
  'Tests print few tables and compare few or no entries.',
  [CF], [('__call__, details, _tablefmt', CF)],
  'exhaustive enumeration of kinds of cashflow lists x models x forwards x '
  'offsets on the real code against terms, market data and own formulas',
  'all kinds, 1-21 dates, 5 sets of dates')

p('C30', 'Printed forms say what curves, flows and prices are',
  'Evaluating repr of a curve (any class, number of points, named day count, '
  'interpolation, origin, forward tenor, nested curves, also after edits) '
  'gives an equal curve: same points, terms and value at each date. So it is '
  'for lists of amounts. str shows class, parameters, and first and last date '
  'and value; prices show value and date; printing changes nothing.',
  ['inputs', 'histories'], 'all curve classes, date types and terms',
  'Tests look for class names in few printed forms.',
  [CV], [('__repr__, __str__, kwargs', CV), ('__repr__, __str__', CF)],
  'exhaustive enumeration of classes x terms x edit histories on the real '
  'code, printed form evaluated and compared', 'all classes, 0-22 points')

p('C31', 'Objects own their data, arguments are left alone',
  'Constructors and functions (curves, interpolations, cashflow lists, legs, '
  'products, plans, scales, fx, pricers) never change lists, tuples or dicts '
  'they are given. Later changes of these by the caller, or of lists and '
  'dicts got from an object (dates, tables, details, keyword arguments, '
  'legs, values), never show in any object. Lists and tuples give the same, '
  'and objects made from the same containers are independent.',
  ['histories', 'inputs'], 'all containers given or got, all changes of them',
  'Tests pass fresh lists and do not change them afterwards.',
  [CV, CF], [('__init__, _update, domain, kwargs', CV), ('__init__', CF)],
  'exhaustive exploration of pairs of changes of containers given and got on '
  'the real code', 'all constructors, all pairs of changes')


def main():
    have = [x for x in P if os.path.exists(os.path.join(
        ROOT, 'mc', 'props', x[0].lower() + '.py'))]
    import importlib
    checks = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for (i, title, st, over, text, why, files, mech, tech, note) in have:
            assert len(title) <= 80, title
            f.write(json.dumps({
                'id': i, 'title': title, 'statement': st,
                'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why,
                'anchors': {'files': list(files), 'mechanism': [
                    {'name': n, 'where': w} for n, w in mech]}}) + '\n')
            mod = importlib.import_module('mc.props.' + i.lower())
            checks.append({
                'property': i, 'quick_cmd': 'bash run.sh %s --tier quick' % i,
                'thorough_cmd': 'bash run.sh %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'model checking: ' + tech,
                'level': mod.LEVEL, 'level_note': note})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python -c "import scipy, businessdate"',
         'checks': checks, 'not_applicable': [],
         'notes': 'bash run.sh --replay FILE re-runs a violation; see '
                  'DESIGN.md'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
