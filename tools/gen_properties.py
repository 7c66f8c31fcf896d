"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements and anchors)."""
import json, os
M = "reliabilityassessment/monte_carlo/"
D = "reliabilityassessment/data_processing/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=False)))


p("P01", "Every hourly shortage is counted once, with its size and its cause",
  "For a simulated hour and load-forecast level in which areas are short, every short area gets exactly one loss-of-load hour and its whole shortage in MWh, areas that are not short get nothing, and the pool's energy is the sum of its areas' shortages. The hour's cause is generation when the pool as a whole is short of capacity and transmission otherwise, and only the statistics of that cause and that forecast level change.",
  ["inputs"], "every vector of area margins (any number of areas, any mix of signs, zero sums and zero margins), every forecast level, every earlier content of the statistics",
  "Two fixed margin vectors are compared with stored results; ties (a margin or a pool sum of exactly zero), other forecast levels and other area counts are never reached.",
  [M + "hrstat.py"], [("accounting of one hour", M + "hrstat.py:hrstat")], ["the hourly statistics arrays after the call"])
p("P02", "Daily-peak shortages are counted once, with their size and cause",
  "When the daily-peak hour is short, each short area gets exactly one loss-of-load day and its whole shortage as peak-hour deficit, no other area changes, and the pool counts one day and the sum of the deficits. Cause (generation or transmission) and forecast level are attributed as for hourly shortages.",
  ["inputs"], "every vector of area margins, forecast level and earlier content of the statistics",
  "Tests use two fixed margin vectors at one forecast level.",
  [M + "pkstat.py"], [("accounting of one daily peak", M + "pkstat.py:pkstat")], ["the daily-peak statistics arrays after the call"])
p("P03", "An hour is examined per forecast level and recorded only if really short",
  "In every simulated hour the forecast levels are examined from the highest load to the lowest; each compares every area's available capacity with that level's load, and the examination ends at the first level without any short area. A shortage is recorded only if every area is short or the transmission analysis leaves a shortage, and then with the margins after transmission help; daily-peak statistics are recorded exactly in the day's peak hour.",
  ["inputs", "histories"], "every hour, load, unit and line state, contract and number of forecast levels",
  "No unit test calls the hourly event; the one integration run fixes the data and the random seed, and compares rounded yearly results.",
  [M + "hour.py", M + "findld.py"], [("hourly event", M + "hour.py:hour"), ("load of a forecast level", M + "findld.py:findld")],
  ["statistics arrays changed by the hourly event", "arguments of the transmission analysis"])
p("P04", "Yearly results are the sum of both causes and enter every running total once",
  "At the end of a simulated year, the total loss of load and unserved energy of each area and of the pool is the generation part plus the transmission part, for hourly and daily-peak statistics and every forecast level. Each part and the total is added exactly once to its running sum, and the forecast-weighted value (fixed normal-distribution weights, or the single level alone) is added exactly once to its own weighted running sum; the squares of the weighted totals are added to the sums used for the standard deviation.",
  ["inputs", "histories"], "every content of the year's statistics and of the running sums, with one or five forecast levels",
  "The test compares one data set with stored numbers, in which many of the arrays are zero or identical, so swapped or dropped terms can go unnoticed.",
  [M + "year.py"], [("yearly roll-up", M + "year.py:year")], ["running sums after the yearly event"])
p("P05", "A new year starts with empty yearly statistics and untouched running sums",
  "After a simulated year has been evaluated, all yearly loss-of-load and unserved-energy statistics, of every area, forecast level, cause, and of the pool, are zero again. Nothing of a finished year other than the running sums influences the statistics of the following years.",
  ["histories"], "every sequence of simulated years",
  "Tests evaluate a single year and never look at the second one.",
  [M + "year.py"], [("reset", M + "year.py:year")], ["yearly statistics arrays after the yearly event"])
p("P06", "The convergence test uses the statistic the user selected",
  "The quantity tested for convergence is the running sum chosen by the user: area or pool, hourly or daily peak, loss of load or unserved energy, weighted over the forecast levels or the level without forecast error, and for an area the selected one. It is taken after the year just finished has been added.",
  ["configurations"], "all sixteen combinations of the selectors, every selected area, one or five forecast levels",
  "One combination is exercised by the test and one by the integration run.",
  [M + "year.py"], [("selection of the convergence statistic", M + "year.py:year")], ["value handed to the convergence test"])
p("P07", "The simulation converges exactly when the standard error is small enough",
  "The yearly values of the tested statistic give the mean and the standard error of the mean; the run is declared converged only from the fifth year on, only for a nonzero mean, and exactly if the standard error is below the user's fraction of the mean (0.025 if the user gives 0). Reaching the final year always stops the run, and the test never fails on rounding.",
  ["inputs", "histories"], "every sequence of yearly values, thresholds, years and final years",
  "Tests evaluate five fixed argument tuples; equalities and years around the thresholds are not among them.",
  [M + "cvchk.py"], [("convergence test", M + "cvchk.py:cvchk")], ["returned stop flag, sum of squares and last value"])
p("P08", "Each year adds exactly one observation to each distribution",
  "Each simulated year adds exactly one observation per area to the distributions of hourly loss of load, daily-peak loss of load and unserved energy, in the class of that year's value at the forecast level without error; values beyond the last class go into the last class. The width of the unserved-energy classes is the configured maximum divided by 20, at least 1 MWh.",
  ["inputs", "histories"], "every yearly value (including zero, class limits and overflow) and every configured maximum",
  "The test has one data set whose observations all fall into a few classes.",
  [M + "year.py", M + "narpMain.py"], [("classification", M + "year.py:year"), ("class width", M + "narpMain.py:narpMain")], ["distribution arrays after the yearly event"])
p("P09", "The final report states the per-year averages and their standard deviations",
  "Every value of the final report's area and pool rows is the corresponding running sum divided by the number of simulated years, or, for the average shortage size, the unserved energy divided by the number of shortages and zero if there were none; rows belong to the right area, forecast level and cause. The summary states peak load, installed capacity, reserve percentage, weighted averages and the standard deviation of the mean in percent, for each area and for the pool, without dividing by zero.",
  ["inputs"], "every content of the running sums, one or five forecast levels, hourly or peak-only runs",
  "The test compares the output text of one data set; in it most pool values vanish and several rows have equal values.",
  [M + "report.py"], [("final report", M + "report.py:report")], ["values written to the report file", "area statistics table"])
p("P10", "The reported probability distributions are normalised per area and kind",
  "In the final report the probability of every class of an area's distribution of hourly loss of load, daily-peak loss of load or unserved energy is that class's number of observations divided by all observations of that same area and distribution, printed next to its own count and class limit.",
  ["inputs"], "every content of the distributions",
  "In the tested data hourly and peak distributions have equal totals.",
  [M + "report.py"], [("probability tables", M + "report.py:report")], ["values written to the report file"])
p("P11", "The yearly table shows that year's own values",
  "When results after each replication are requested, every printed row states the finished year's shortages, unserved energy and average shortage size (zero without shortage) of its own area or pool, forecast level and cause, and the weighted rows state the forecast-weighted values of that year.",
  ["inputs", "configurations"], "every content of the yearly statistics; hourly and peak-only runs",
  "The test compares only arrays; the table text of one data set is not checked.",
  [M + "year.py"], [("yearly table", M + "year.py:year")], ["values written to the report file"])
p("P12", "The event calendar always yields the earliest pending event and loses none",
  "Filing an event keeps all pending events, in order of time, with their own times and kinds; removing takes the earliest one and leaves the others unchanged and frees the place that the next filing uses. The initial calendar holds exactly the hourly, weekly, yearly and four season events in time order, the season events at the user's season ends.",
  ["histories", "inputs"], "every calendar content and every time of the new event, including equal times and times before the first and after the last event",
  "Tests insert into two or three fixed calendars.",
  [M + "filem.py", M + "remove.py", M + "initl.py", M + "initfl.py"],
  [("filing", M + "filem.py:filem"), ("removal", M + "remove.py:remove"), ("initial calendar", M + "initl.py:initl"), ("empty calendar", M + "initfl.py:initfl")],
  ["calendar array, first-event and free-place pointers, number of events"])
p("P13", "Every kind of event recurs with its own period and runs its own routine",
  "Handling an event files exactly one successor of the same kind: an hourly event one simulation step later, a weekly event 168 hours later, a season or yearly event one year later. Each kind of event runs its own routine, and the season advances cyclically through the four seasons, with that season's unit ratings in force afterwards.",
  ["histories"], "every event sequence",
  "Tests call the weekly and yearly routine once; nobody follows the calendar.",
  [M + "events.py", M + "hour.py", M + "week.py", M + "quartr.py", M + "year.py"],
  [("dispatch", M + "events.py:events"), ("refiling", M + "hour.py:hour"), ("refiling", M + "week.py:week"), ("refiling", M + "quartr.py:quartr"), ("refiling", M + "year.py:year")],
  ["filed event (time, kind)", "ratings in force"])
p("P14", "Clock times map to the right hour, day, week and year",
  "The event at clock hour h evaluates hour (h-1) mod 8760 of the year and the day containing it (with the day's peak hour instead in daily-step runs); the weekly event after hour t applies the outages of the week that starts next; the yearly event at the end of year n counts n years.",
  ["histories"], "every clock value over any number of years",
  "Tests use a few clock values in the first year.",
  [M + "hour.py", M + "week.py", M + "year.py"],
  [("hour and day of the year", M + "hour.py:hour"), ("week", M + "week.py:week"), ("year number", M + "year.py:year")],
  ["load hour, contract day and peak-hour test used", "outages in force", "number of years used"])
p("P15", "Planned outages take exactly the scheduled units out of service",
  "The weekly event restores all units and then takes out of service exactly the units scheduled for the new week; after week 52 none. The schedule marks a unit in exactly the weeks from each outage's start through its duration, within the year.",
  ["inputs", "histories"], "every schedule table, week, and outage start and duration, including the last week and outages running over the year's end",
  "The test checks one week of one table; the schedule test does not reach the last week.",
  [M + "week.py", D + "smaint.py"], [("weekly event", M + "week.py:week"), ("schedule table", D + "smaint.py:smaint")], ["planned-outage state of all units", "schedule table"])
p("P16", "A unit is up, derated or down according to its own probabilities",
  "In every draw each unit is fully available if its random number is below its full-capacity probability, derated to its own derating if below the cumulated second probability, and otherwise down. Its capacity is that share of its current seasonal rating, and zero during planned outage.",
  ["inputs"], "every number of units, probability table, derating, rating, outage state and seed",
  "The test fixes one seed and checks one draw.",
  [M + "gstate.py"], [("unit draw", M + "gstate.py:gstate")], ["returned availability and capacity"])
p("P17", "A line is in the state its cumulative probabilities prescribe",
  "In every draw each line is in the first of its six states whose cumulated probability is not below the line's own random number.",
  ["inputs"], "every number of lines, probability table and seed",
  "Tests only look at frequencies of another sampling routine.",
  [M + "lstate.py"], [("line draw", M + "lstate.py:lstate")], ["returned line states"])
p("P18", "Each unit and line has its own reproducible random stream",
  "Each draw advances the random stream of every unit and line exactly once, by the same generator, and uses only the unit's or line's own stream; all streams are derived from one seed in a fixed order. No result depends on any other source of randomness or on the time.",
  ["histories"], "every seed, number of units and lines, and every sequence of draws",
  "One seed, one draw.",
  [M + "gstate.py", M + "lstate.py", M + "seeder.py", M + "narpMain.py"], [("stream derivation", M + "seeder.py:seeder"), ("unit streams", M + "gstate.py:gstate"), ("line streams", M + "lstate.py:lstate")],
  ["stream states"])
p("P19", "Area capacity counts each unit once, in its location and by its owners' shares",
  "An area's available capacity is the sum of the capacities of the units located in it, its owned capacity is the sum of all units' capacities times the area's ownership shares, and the difference is the area's transfer due to joint ownership.",
  ["inputs"], "every number of areas and units, locations and ownership shares",
  "The test uses one small system.",
  [M + "sumcap.py"], [("area capacity", M + "sumcap.py:sumcap")], ["returned capacities and transfers"])
p("P20", "A firm contract moves its power from seller to buyer on its days only",
  "A contract changes the exchange between its two areas by its power on exactly its first through last day; several contracts add up. In the transfers of a day and in the loads used to find peaks, the selling area gets the power added and the buying area the same power subtracted, and removing the contracts restores the original loads.",
  ["inputs"], "every set of contracts (any pair of areas, both directions, several per pair, any days)",
  "The test data contain no contract in the input files; the unit tests use two contracts between different areas.",
  [D + "datax.py", D + "xporta.py", D + "xports.py", M + "findtn.py"],
  [("contract table", D + "datax.py:datax"), ("load adjustment", D + "xporta.py:xporta"), ("restoration", D + "xports.py:xports"), ("daily transfers", M + "findtn.py:findtn")],
  ["contract table", "hourly loads", "transfers"])
p("P21", "Loads are scaled to the annual peak and peaks are found where they are",
  "Every area's hourly loads are its own profile scaled to its own annual peak. Daily peaks, their hours, the annual peak day and weekly peaks (the last week having eight days) are the maxima of the area's own loads over the right hours and days, and the pool's daily peak hour is the hour of the day's largest total load.",
  ["inputs"], "every load profile, annual peak and number of areas",
  "Tests compare one profile; areas beyond nine and ties are not reached.",
  [D + "xldnew.py", D + "dpeak.py", D + "wpeakf.py", D + "plhr.py"],
  [("scaling", D + "xldnew.py:xldnew"), ("daily peaks", D + "dpeak.py:dpeak"), ("weekly peaks", D + "wpeakf.py:wpeakf"), ("pool peak hours", D + "plhr.py:plhr")],
  ["returned loads and peaks"])
p("P22", "Installed capacity counts owned shares at the peak's season plus contracts",
  "The installed capacity reported for an area is the sum of its shares of all units' ratings in the season containing its annual peak day, plus the contracted imports and minus the contracted exports of that day.",
  ["inputs"], "every season boundary, peak day, ownership, rating and contract table",
  "The test's peak days lie in the first three seasons.",
  [D + "resca.py"], [("installed capacity", D + "resca.py:resca")], ["area statistics table"])
p("P23", "Every input column reaches the quantity it describes, in the right unit and base",
  "Each column of the input cards feeds exactly the quantity it describes: names become 0-based indices consistently over all cards, weeks, days, lines and areas given 1-based become 0-based, percentages become fractions, forced outage rates become cumulated probabilities, and years become hours.",
  ["inputs", "configurations"], "every content of the input files",
  "Tests compare one system's files, where several columns are zero, constant or empty.",
  [D + "readInputB.py", D + "pind.py", D + "datax.py"],
  [("card readers", D + "readInputB.py"), ("names to indices", D + "pind.py:pind"), ("arrays", D + "datax.py:datax")],
  ["values returned by the input processing"])
p("P24", "One and the same state is carried through all events of a run",
  "Every statistic, running sum, table and pointer of the simulation is one object or value that starts empty, is handed to every event that needs it under the same role, and is taken over from the event that updates it; no two statistics share storage.",
  ["histories"], "every event sequence",
  "The routines passing the state on take up to 150 positional arguments; tests call the routines one by one, and the integration run leaves many of the statistics zero.",
  [M + "narpMain.py", M + "contrl.py", M + "events.py"],
  [("initial state", M + "narpMain.py:narpMain"), ("event loop", M + "contrl.py:contrl"), ("dispatch", M + "events.py:events")],
  ["arguments of the event routines"])
p("P25", "The run ends once, with exactly one final report",
  "The event loop handles events in calendar order and stops when the convergence test or the final year says so; the final report is produced exactly once, by the last evaluated year, over the years simulated. Events after the final year are never handled.",
  ["histories"], "every convergence history and final year",
  "The integration run follows one history.",
  [M + "contrl.py", M + "year.py"], [("event loop", M + "contrl.py:contrl"), ("final report", M + "year.py:year")],
  ["calls of the report", "return of the event loop"])
p("P26", "The network matrix is the admittance matrix of the connected areas",
  "Each line adds its admittance to the two diagonal entries of its areas and, negated, to their two off-diagonal entries; parallel lines add up. Removing the reference area deletes exactly its row and column and keeps the other areas in order with a correct index table; the impedance matrix is the inverse of what remains.",
  ["inputs"], "every network, including parallel lines and every reference area",
  "Tests use one network with the first area as reference.",
  [M + "admitb.py", M + "admitr.py", M + "tm1.py"],
  [("assembly", M + "admitb.py:admitb"), ("reduction", M + "admitr.py:admitr"), ("inverse", M + "tm1.py:tm1")],
  ["returned matrices and index table"])
p("P27", "A line's state change updates the matrices by that line alone",
  "A change of a line's admittance changes the admittance matrix only in the entries of the line's two areas, by the admittance change, and the impedance matrix by the corresponding rank-one update, for lines between two areas and lines to the reference area. After the hour's analysis both matrices are those of the undisturbed network again.",
  ["inputs", "histories"], "every network, line and admittance change",
  "Tests check one change of a fixed network and never the restoration.",
  [M + "ximpa.py", M + "ximpar.py", M + "admitm.py", M + "admref.py", M + "tm2.py"],
  [("impedance update", M + "ximpa.py:ximpa"), ("impedance update, reference area", M + "ximpar.py:ximpar"), ("admittance update", M + "admitm.py:admitm"), ("admittance update, reference area", M + "admref.py:admref"), ("use and restoration", M + "tm2.py:tm2")],
  ["matrices after the update and after the analysis"])
p("P28", "Line flows follow from angles, and area flows from line flows",
  "Angles are the impedance matrix times the injections, assigned to the right areas with the reference at zero; a line's flow is its admittance times the difference of its areas' angles; an area's net flow is the sum of inflows minus outflows over its lines.",
  ["inputs"], "every network, injection and index table, including several lines per area and pair",
  "Tests use one fixed network.",
  [M + "theta.py", M + "thetac.py", M + "flo.py"], [("angles", M + "theta.py:theta"), ("assignment", M + "thetac.py:thetac"), ("flows", M + "flo.py:flo")],
  ["returned angles and flows"])
p("P29", "Without limits, deficits are balanced against surpluses fairly",
  "If the surpluses cover the deficits, every deficit is met and surpluses are used in proportion; otherwise, without load-loss sharing deficits are met in proportion and each area's unmet part is its own loss, and with sharing the pool's shortage is divided in proportion to loads.",
  ["inputs"], "every vector of injections and loads, including all-surplus, all-deficit and exact balance",
  "Three fixed vectors are tested.",
  [M + "assign.py"], [("balancing", M + "assign.py:assign")], ["returned injections and losses"])
p("P30", "A limit violation is detected exactly when a flow exceeds its limit",
  "The unconstrained solution is accepted exactly if every line's flow is within the line's limit of its direction and every area's net flow is within the area's limit of its direction; then the resulting transfers and losses are those of the balanced solution. Otherwise the optimisation with limits is used and its solution is taken over for the right areas and lines.",
  ["inputs"], "every flow pattern and every pair of directional limits",
  "Tests exercise one feasible and one infeasible pattern, with equal limits in both directions.",
  [M + "tm2.py"], [("limit check", M + "tm2.py:tm2")], ["choice between direct and optimised solution", "area results"])
p("P31", "Transmission help is assessed in two stages on the current line states",
  "Line admittances and limits are those of each line's current state, scaled by its derating factors. The first stage exchanges contracted and joint-ownership power as far as the areas can provide it; the second shares the remaining capacity within the limits the first stage left, in each line's direction and for each area, and the area limits are restored afterwards.",
  ["inputs", "histories"], "every line state, capacity, load and contract",
  "The test has one system in one state and only the first stage is reached with lines sharing an area.",
  [M + "transm.py"], [("two-stage analysis", M + "transm.py:transm")], ["arguments of the network analysis", "adjusted margins"])
p("P32", "The optimisation's result is read back for the right variables",
  "The limits, injections, loads and admittances of every line and area enter the optimisation in their own rows and columns, and the solution values are assigned to the variables of the final basis, with slack and sign conventions undone.",
  ["inputs"], "every network size, basis and right-hand side",
  "Tests compare one system's tableau.",
  [M + "connls.py", M + "conls.py", M + "net.py"], [("tableau without load sharing", M + "connls.py:connls"), ("tableau with load sharing", M + "conls.py:conls"), ("solution values", M + "net.py:net")],
  ["tableau", "result table"])
p("P33", "A snapshot holds the running sums and the calendar under their own names",
  "The snapshot written every configured number of years and at the last year contains every area and pool running sum, the distributions, the sums of squares, the calendar with its pointers, and the convergence state, each under its own name.",
  ["histories", "crash_points"], "every year at which a snapshot is due",
  "No test reads a snapshot written by a simulation.",
  [M + "intm.py", M + "year.py"], [("snapshot", M + "intm.py:intm"), ("when and what", M + "year.py:year")], ["snapshot file content"])
p("P34", "Input tables are never changed by the simulation",
  "Unit probabilities, ratings per season, deratings, ownership, loads, forecast levels, contracts, network description, outage schedule and peak hours stay as read during the whole simulation; only statistics, calendar, unit and line states and working matrices change.",
  ["histories"], "every event sequence",
  "Tests look at results, not at arguments that must stay unchanged.",
  [M + "hour.py", M + "week.py", M + "quartr.py", M + "year.py", M + "transm.py", M + "tm2.py"],
  [("event routines", M + "events.py:events")], ["arguments after the call"])
p("P35", "Factors, inverse, prices and columns of the optimisation are formed exactly",
  "In exact arithmetic the matrix work of the optimisation is what it claims to be: the simplex multipliers are the basis costs times the basis inverse, the value of a column is its product with the multipliers, an entering column is expressed in the basis by the inverse; elimination exchanges rows so that the largest element of the column (the first on ties) becomes the pivot, keeps the negated multipliers below the diagonal and reports the last zero pivot; and the inverse is, column by column, the solution of the factored system with the recorded exchanges.",
  ["inputs"], "every matrix (sizes bounded for factorisation and inversion), including those with zero pivots during elimination and ties",
  "One or two fixed matrices are tested, compared with stored numbers.",
  [M + "dgefa.py", M + "dgedi.py", M + "dgeco.py", M + "rm.py", M + "rc.py", M + "mc.py"],
  [("LU factorisation", M + "dgefa.py:dgefa"), ("inverse", M + "dgedi.py:dgedi"), ("prices", M + "rm.py:rm"), ("column", M + "mc.py:mc")], ["returned matrices, pivots and values"])
p("P36", "The optimisation follows the two-phase revised simplex rule at every step",
  "Each pass of the optimisation prices every column that is not in the basis and lets the one with the most negative reduced cost enter (magnitudes below 1e-7 count as zero, the first wins when two are that close); the row with the smallest ratio of right-hand side to a positive column entry leaves, and in the first phase an artificial column that is already at zero leaves before others. The pivot updates basis, right-hand sides, basis inverse and costs together. A basis is accepted as optimal only after its inverse has been formed afresh from the constraint columns and priced again; then the second-phase costs replace the first-phase ones, and the second acceptance ends the optimisation, returning the number of structural columns and the fresh inverse, with the right-hand sides computed from the original ones.",
  ["inputs"], "every tableau, costs and initial basis for which the problem is bounded (sizes and number of passes bounded)",
  "One tableau is tested.",
  [M + "linp.py"], [("passes", M + "linp.py:linp"), ("reduced cost", M + "rc.py:rc"), ("entering column", M + "mc.py:mc")], ["basis, right-hand sides, costs and returned inverse", "the entering columns in order"])
p("P37", "The transfer trace lists the outages, areas and lines of its case",
  "With the trace switched on, every transfer analysis that needs the optimisation writes the clock, hour and pass, the number of units that are out and their numbers in order (planned or fully forced outages as they are, units partly available with a negative sign), one row per area (first pass: number, transfer asked for, transfer granted, capacity and requirement; second pass: number, load, loss, the injection and load before the analysis, and import limit) and one row per line (number, ends, admittance, both limits and flow). With the trace switched off, or when the direct solution is accepted, nothing is written, and the trace never changes a result.",
  ["inputs"], "every outage pattern, pass, load-sharing mode and flow",
  "No test switches the trace on.",
  [M + "tm2.py", M + "transm.py"], [("trace rows", M + "tm2.py:tm2"), ("values before the analysis", M + "transm.py:transm")], ["numbers written, in order"])
p("P42", "Adding a unit convolves the capacity outage table with its three states",
  "The capacity outage table of a set of units is built unit by unit. After a unit (running with probability p1, losing the part KP with p2, losing KT with p3) is added, the table has one row for every distinct outage reachable from an old row by one of the unit's states, in ascending order, each with the probability p1*P(at least x) + p2*P(at least x-KP) + p3*P(at least x-KT) of the old table; it starts with outage 0 at probability 1 and ends after the first row at or below 1e-9, or when no outage is left, closed by a zero. Capacities are rounded to the ten-megawatt grid (a part of the rounded capacity), units that are never available are left out.",
  ["inputs"], "every table, unit and probabilities (tables of up to four rows before the unit is added; any number of units)",
  "Tests add a unit to the empty table and build one fixed table.",
  [D + "gsm.py", D + "pmlolp.py"], [("convolution", D + "gsm.py:gsm"), ("units on the grid", D + "pmlolp.py:pmlolp")], ["returned table"])
p("P38", "The library's line-state samplers follow the probabilities and the seed given",
  "The stand-alone samplers of line states use only the generator started from the seed they are given, one number per line, in the order of the lines. With a table of one row of cumulative probabilities per line, the state of a line is the first whose cumulative probability of that line exceeds the number drawn (0 if none does); with one common row it is the first whose cumulative probability reaches the number, and the last state otherwise; the choice-based sampler chooses among states 1 to 6 with the probabilities recovered as differences of the cumulative ones. No arguments of the documented form are rejected.",
  ["inputs"], "every probability table, number of lines and seed",
  "Tests compare relative frequencies of one probability row, the same for all lines, within 5 %.",
  [M + "line_prob_sampling.py"], [("samplers of line states", M + "line_prob_sampling.py:lstate"), ("common row", M + "line_prob_sampling.py:lstate_original"), ("choice", M + "line_prob_sampling.py:discrete_prob_gen")], ["returned states"])
# not applicable -----------------------------------------------------------------
p("P40", "The optimisation returns a feasible, optimal solution and terminates",
  "For every feasible tableau the simplex routine terminates with a basis that satisfies all limits and minimises the curtailed load.",
  ["inputs"], "every feasible tableau", "One tableau is tested.",
  [M + "linp.py", M + "rc.py", M + "rm.py", M + "mc.py"], [("revised simplex", M + "linp.py:linp")], ["returned basis and tableau"])
p("P41", "Rounding in factorisation and inversion stays small",
  "The factorisation and inversion used inside the optimisation give the inverse of every well-conditioned matrix up to a small multiple of the rounding error.",
  ["inputs"], "every nonsingular matrix", "Fixed matrices are tested.",
  [M + "dgeco.py", M + "dgefa.py", M + "dgedi.py"], [("LU factorisation", M + "dgefa.py:dgefa"), ("inverse", M + "dgedi.py:dgedi")], ["returned matrices"])
p("P43", "Automatic maintenance scheduling respects windows and levels the risk",
  "Automatically scheduled outages lie inside the allowed window, outside the forbidden period, never overlap within a plant and level the effective weekly load.",
  ["inputs"], "every area", "One area is tested.",
  [D + "pmsc.py"], [("scheduling", D + "pmsc.py:pmsc")], ["schedule"])
p("P44", "A restarted run continues exactly as an uninterrupted one",
  "A run continued from a snapshot produces the same results as a run that was never interrupted.",
  ["crash_points"], "every snapshot", "No test restarts.",
  [M + "intm.py", M + "rstart.py"], [("snapshot", M + "intm.py:intm"), ("restart", M + "rstart.py:rstart")], ["results"])
p("P45", "Estimates converge to the true reliability indices",
  "With growing number of simulated years the reported indices converge to the indices of the modelled system; the random streams are independent and uniformly distributed.",
  ["inputs"], "every system and seed", "Statistical.",
  [M + "seeder.py", M + "gstate.py"], [("streams", M + "seeder.py:seeder")], ["reported indices"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
