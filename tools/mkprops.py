"""Writes /verif/properties.jsonl (kept as a generator so that the wording stays in one place)."""
import json, os
F = 'flixOpt/'
INP = 'all numeric parameters (scalars or series), all horizon lengths of at least two steps and all step widths, for every combination of options'
WHY = 'A test solves a handful of fixed systems and compares a few optimal values; it cannot show that no feasible schedule violates the rule (or that no valid schedule is cut off) for every parameter value, horizon and option combination.'
def P(id, title, statement, text, files, mech, state=None, over=('inputs', 'configurations'), why=WHY, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=[F + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    return d
props = [
P('C01', 'The solver receives exactly the stated equations, limits and objective',
  'Every equation, inequality, variable limit, fixed value, binary declaration and the objective that the model building states is handed to the solver unchanged: one row per index, every term with its own factor and its own variable index, sums over exactly the requested indices, the right-hand side and direction preserved. Nothing else is added and nothing is dropped.',
  'every constraint built from terms with scalar or per-index factors over any index subset, as plain terms or sums, with scalar or per-index constants, for every length; every variable with scalar, per-index, infinite or missing limits',
  ['math_modeling.py', 'structure.py', 'utils.py'], [('row assembly', 'flixOpt/math_modeling.py:_Constraint'), ('term with factor per index', 'flixOpt/math_modeling.py:Summand'), ('translation to the solver interface', 'flixOpt/math_modeling.py:PyomoModel'), ('collection of all parts of the model', 'flixOpt/structure.py:SystemModel')]),
P('C02', 'Reported results are the values the solver found',
  'After solving, the result of every variable equals the value the solver assigned to it, index by index, as a number for one-element variables and as an array otherwise; on/off decisions are reported as exact 0 or 1 even when the solver returns values within its integrality tolerance. The reported objective equals the objective expression evaluated at these values, and the nested result structure holds each variable under its own element.',
  'every assignment of values the solver may return, including values near 0 and 1 for binary decisions, and every variable length', ['math_modeling.py', 'structure.py', 'calculation.py'],
  [('reading results back', 'flixOpt/math_modeling.py:PyomoModel._solve'), ('nested results per element', 'flixOpt/structure.py:ElementModel.results'), ('results of the whole system', 'flixOpt/structure.py:SystemModel.results')]),
P('C03', 'Every bus balances in every time step',
  'At each bus and in each time step the sum of all flows entering equals the sum of all flows leaving. A difference is only possible through non-negative excess supply or excess demand, which exist only if the bus has an excess penalty and are then charged with that penalty per flow hour in the objective.',
  INP + ', any number of flows at the bus', ['elements.py', 'flow_system.py', 'effects.py'],
  [('balance equation', 'flixOpt/elements.py:BusModel.do_modeling'), ('registration of flows at buses', 'flixOpt/elements.py:Component.register_flows_in_bus'), ('penalty', 'flixOpt/effects.py:EffectCollectionModel.add_share_to_penalty')]),
P('C04', 'Flow rates respect size, profile and total limits',
  'In every time step a flow lies between its relative minimum and maximum times its size (or is zero where it may be switched off), follows its fixed profile times its size if one is given, and its total flow hours equal the sum of rate times step width. The total respects the limits on flow hours and on the load factor, and no flow that satisfies all of these limits is excluded.',
  INP, ['elements.py', 'features.py'], [('bounds of a flow', 'flixOpt/elements.py:FlowModel.do_modeling'), ('load factor', 'flixOpt/elements.py:FlowModel._create_bounds_for_load_factor'), ('default size', 'flixOpt/elements.py:Flow.__init__')]),
P('C05', 'On/off status agrees with the flows and is limited and charged in hours',
  'A flow or component that can be switched off is on in a time step if and only if its flow (for a component: at least one of its flows) is non-zero up to the documented numerical threshold, and off means all of them are exactly zero. The total hours of operation are the sum of the step widths while on, respect their limits, and are charged with the effects per running hour.',
  INP, ['features.py', 'elements.py', 'interface.py'], [('link between flow and status', 'flixOpt/features.py:OnOffModel._add_on_constraints'), ('hours of operation', 'flixOpt/features.py:OnOffModel.do_modeling'), ('effects', 'flixOpt/features.py:OnOffModel._create_shares')]),
P('C06', 'Start-ups are exactly the changes from off to on',
  'A start-up is recorded in a time step if and only if the unit is on in it and was off in the step before (for the first step: in the history given by the user), and a shut-down likewise in reverse. The number of start-ups is their count, respects its limit, and each start-up is charged with the start-up effects of its time step.',
  INP + ', every history of previous flow rates', ['features.py', 'interface.py'], [('switch constraints', 'flixOpt/features.py:OnOffModel._add_switch_constraints'), ('history', 'flixOpt/features.py:OnOffModel._previous_on_values'), ('effects', 'flixOpt/features.py:OnOffModel._create_shares')], over=('inputs', 'configurations', 'histories')),
P('C07', 'Minimum and maximum up and down times hold, including the given history',
  'No uninterrupted period of operation is longer than its maximum or, if it ends within the horizon, shorter than its minimum; the same holds for periods of standstill. The hours of the period that is running at the end of the given history count, and a minimum that is not yet reached there forces the first step.',
  INP + ', every history of previous flow rates and previous step widths', ['features.py'], [('duration constraints', 'flixOpt/features.py:OnOffModel._get_duration_in_hours'), ('hours running at the end of the history', 'flixOpt/features.py:OnOffModel.get_consecutive_duration'), ('history', 'flixOpt/features.py:OnOffModel._previous_on_values')], over=('inputs', 'configurations', 'histories')),
P('C08', 'Investment decisions size the equipment consistently',
  'The invested size lies within its limits or equals the fixed size if the investment is made, and is zero if an optional investment is not made; a compulsory investment is always made. The flow rate or charge state is limited by relative limits times the invested size, and every size the parameters allow can be chosen.',
  INP, ['features.py', 'interface.py', 'elements.py', 'components.py'], [('size and decision', 'flixOpt/features.py:InvestmentModel'), ('parameters', 'flixOpt/interface.py:InvestParameters'), ('bounds of a flow with investment', 'flixOpt/elements.py:FlowModel.absolute_flow_rate_bounds')]),
P('C09', 'Investment effects are charged exactly for what is built',
  'Fixed effects are charged if and only if the investment is made, divestment effects if and only if an optional investment is not made, specific effects in proportion to the size, and piecewise effects according to the linear piece in which the size lies (zero if not invested). Every contribution reaches the investment share of the effect it is given for, and only that one.',
  INP + ', any number of pieces', ['features.py', 'effects.py'], [('investment shares', 'flixOpt/features.py:InvestmentModel._create_shares'), ('piecewise effects', 'flixOpt/features.py:SegmentedSharesModel'), ('allocation', 'flixOpt/effects.py:EffectCollectionModel._add_share_to_effects')]),
P('C10', 'Linear converters couple their flows by the given factors',
  'For every conversion relation of a converter and in every time step, the inputs times their factors sum up to the outputs times their factors. No other relation is imposed on the flows, and relations with too many equations or with foreign flows are rejected.',
  INP + ', any number of flows and relations', ['components.py'], [('conversion equations', 'flixOpt/components.py:LinearConverterModel.do_modeling'), ('validation', 'flixOpt/components.py:LinearConverter._plausibility_checks')]),
P('C11', 'Ready-made converters implement their physical relations',
  'A boiler and an electric heater deliver heat equal to efficiency times input, a heat pump heat equal to its coefficient of performance times electricity (and, with a source, takes the difference of heat and electricity from it), a cooling tower uses electricity in proportion to the removed heat, and a combined heat and power unit delivers heat and electricity equal to the respective efficiency times fuel. This holds for constant and time-varying parameters.',
  INP, ['linear_converters.py', 'components.py'], [('factor definitions', 'flixOpt/linear_converters.py'), ('conversion equations', 'flixOpt/components.py:LinearConverterModel.do_modeling')]),
P('C12', 'Piecewise conversion keeps all flows on the same piece',
  'In every time step all flows of a converter with piecewise conversion lie on the same linear piece at the same relative position, so that only the given operating points are possible; every point on every piece is possible. Only when the converter can be switched off and is off, all its flows are zero instead.',
  INP + ', any number of pieces and flows, with gaps and points', ['features.py', 'components.py'], [('pieces', 'flixOpt/features.py:MultipleSegmentsModel'), ('single piece', 'flixOpt/features.py:SegmentModel'), ('use in converters', 'flixOpt/components.py:LinearConverterModel.do_modeling')]),
P('C13', 'Storages conserve energy and respect their charge limits',
  'The charge state at the end of a step equals the one before reduced by the losses over the step, plus the charged amount times the charging efficiency, minus the discharged amount divided by the discharging efficiency. It stays within its relative limits times the capacity, starts at the given value (or where it ends, if so requested) and ends within the final limits; if requested, charging and discharging exclude each other.',
  INP, ['components.py'], [('charge balance', 'flixOpt/components.py:StorageModel.do_modeling'), ('start and end', 'flixOpt/components.py:StorageModel._model_initial_and_final_charge_state'), ('limits', 'flixOpt/components.py:StorageModel.absolute_charge_state_bounds')]),
P('C14', 'Transmissions lose exactly the stated amounts',
  'For each direction the outgoing flow equals the incoming flow reduced by the relative loss, minus the absolute loss while that direction is in use and nothing while it is not. With an investment both directions have the same size, and both directions are not used at once if this is requested.',
  INP, ['components.py', 'elements.py'], [('transmission equation', 'flixOpt/components.py:TransmissionModel.create_transmission_equation'), ('equal sizes and forced status', 'flixOpt/components.py:TransmissionModel.do_modeling')]),
P('C15', 'Mutually exclusive flows are never used together',
  'In every time step at most one flow of a group declared as mutually exclusive is non-zero. Apart from this, each of them can still be used on its own.',
  INP + ', any group size of at least two', ['features.py', 'elements.py', 'components.py'], [('exclusion', 'flixOpt/features.py:PreventSimultaneousUsageModel'), ('status of the flows', 'flixOpt/elements.py:ComponentModel.do_modeling')]),
P('C16', 'Effects add up all contributions, respect limits and form the objective',
  'Each effect totals, per step and overall, exactly the contributions of all elements plus the shares of other effects times their conversion factors, separately for operation and investment; its total is the sum of both and all its limits (per hour, operation, investment, total) hold. The minimised objective is the total of the objective effect plus all penalties.',
  INP + ', any acyclic set of cross-effect shares', ['effects.py', 'features.py', 'elements.py'], [('totals', 'flixOpt/features.py:ShareAllocationModel'), ('contributions', 'flixOpt/features.py:SingleShareModel'), ('cross-effect shares and objective', 'flixOpt/effects.py:EffectCollectionModel')]),
P('C17', 'Data is applied to the time steps it belongs to',
  'A calculation on selected time steps uses for each step the parameter value of exactly that step, and as step width the time to the next time stamp (the given or inferred width for the last step), all in hours. Constant series behave as numbers, data of unfit length is rejected, and nothing of an earlier calculation on other steps remains.',
  'all time axes (regular or not, any resolution), all index selections, all series and numbers, all earlier calculations on the same system', ['core.py', 'flow_system.py', 'structure.py', 'utils.py'],
  [('active data', 'flixOpt/core.py:TimeSeries'), ('time axis', 'flixOpt/flow_system.py:FlowSystem.get_time_data_from_indices'), ('creation of series', 'flixOpt/structure.py:_create_time_series')], over=('inputs', 'histories')),
P('C18', 'Segmented calculation covers every step once and hands over the state',
  'Splitting the horizon (of at least two steps per window) solves windows that start at multiples of the segment length, extend by the (non-negative) overlap but never beyond the end, and together cover every step. Each window starts from the flow rates and storage contents that the previous window reached at the hand-over time, the combined results take each step from exactly one window and in order, and the user\'s own start values are restored afterwards.',
  'all horizon lengths, segment lengths and overlaps, all results of the single windows', ['calculation.py'],
  [('windows', 'flixOpt/calculation.py:SegmentedCalculation._get_indices'), ('hand-over', 'flixOpt/calculation.py:SegmentedCalculation._transfer_start_values'), ('combination of results', 'flixOpt/calculation.py:_combine_nested_arrays')], over=('inputs', 'schedules', 'histories')),
P('C19', 'Aggregated calculation ties together exactly the steps of equal periods',
  'With time series aggregation, flow rates and on/off decisions of two steps are tied to each other exactly if the steps are at the same position (other than the first step of the period) of two periods assigned to the same typical period, for the chosen components (and storages only if requested). Only binary decisions may deviate, in at most the allowed share of the tied pairs and for the given penalty each. The aggregated data repeat the typical period in every period assigned to it, and weights are shared within groups.',
  'all assignments of periods to typical periods, all numbers of periods and steps per period, all choices of components and options', ['aggregation.py', 'calculation.py'],
  [('ties', 'flixOpt/aggregation.py:AggregationModel'), ('index pairs', 'flixOpt/aggregation.py:Aggregation.get_equation_indices'), ('weights', 'flixOpt/aggregation.py:TimeSeriesCollection')]),
P('C20', 'Saved results can be loaded and are the same',
  'Saving a solved calculation and loading it again yields the same numbers for every variable and every time step, under the same names. Component, bus and flow views of the loaded results are taken from the right elements and directions.',
  'all result values, all nested structures, all names, all time axes', ['results.py', 'calculation.py', 'structure.py', 'utils.py'],
  [('conversion for saving', 'flixOpt/structure.py:copy_and_convert_datatypes'), ('loading', 'flixOpt/results.py:CalculationResults'), ('restoring arrays', 'flixOpt/utils.py:convert_numeric_lists_to_arrays')]),
P('C21', 'Calculations leave the user\'s system and inputs reusable',
  'Building and solving a calculation does not change the values the user passed in, and building the same system again yields the same model as the first time. Repeated, subsequent or different calculations on one system do not influence each other.',
  'all sequences of calculations on one system, all inputs', ['structure.py', 'calculation.py', 'components.py', 'effects.py', 'core.py'],
  [('conversion of inputs', 'flixOpt/structure.py:_create_time_series'), ('status forced by components', 'flixOpt/elements.py:ComponentModel.do_modeling'), ('restoring start values', 'flixOpt/calculation.py:SegmentedCalculation._reset_start_values')], over=('histories', 'inputs', 'configurations')),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
