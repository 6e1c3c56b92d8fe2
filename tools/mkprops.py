#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
G = "ghedt/"
PL = "ghedt/peak_load_analysis_tool/"

prop("C01", "Borehole layouts contain exactly the points of their shape",
 "For any positive row counts and spacings, every layout generator (filled rectangle at an origin, open rectangle, L, U, lopsided U, C, zoned rectangle) returns exactly the grid points its shape prescribes: none missing, none extra, none twice. A zoned rectangle is the open-rectangle perimeter plus the requested interior rows, evenly spaced between the perimeter rows, and more interior rows than fit are refused with ValueError. Transposing a layout swaps x and y of every point, keeps the order and the count, and changes nothing else.",
 ["inputs"], "all row/column counts >= 1 (leg lengths that make the shape well formed) and all positive real spacings and origins",
 "The suite only ever builds 12x13 and near-square filled rectangles; the other shapes and all degenerate counts are never called, and the claim is over all counts and spacings.",
 [G+"coordinates.py"],
 [("rectangle, open_rectangle, L_shape, U_shape, lop_U, C_shape, zoned_rectangle, transpose_coordinates", G+"coordinates.py")])
prop("C02", "Candidate borehole fields never leave the available land",
 "Every borehole of every candidate field proposed by the rectangular, bi-rectangular and bi-zoned designs lies inside the rectangle 0..length by 0..width that the user gave, whichever of the two sides is the longer. Every borehole proposed by the near-square design lies within 0..length in the first direction and at most one spacing beyond it in the second.",
 ["inputs", "configurations"], "all land lengths and widths, minimum spacings and maximum spacings for which a spacing within the limits fits the land (and, in the bi-zoned design, at least three rows in each direction); both orientations",
 "No test builds a rectangular, bi-rectangular or bi-zoned domain at all, and the claim ranges over all land sizes and both orientations.",
 [G+"domains.py", G+"coordinates.py", G+"design.py", G+"utilities.py"],
 [("length_1/length_2 ordering and transpose flag", G+"domains.py rectangular, bi_rectangular, bi_rectangle_nested, zoned_rectangle_domain, bi_rectangle_zoned_nested"),
  ("near-square upper count from length and spacing", G+"design.py Design.__init__, "+G+"utilities.py number_of_boreholes")])
prop("C03", "Candidate fields honour the spacing limits",
 "In every candidate field of the rectangular and bi-rectangular designs, rows that are neighbours in a direction are at least the minimum spacing apart; in the rectangular design the spacing is the same in both directions and at most the given maximum, and in the bi-rectangular design it is at most that direction's own maximum. In the bi-zoned design the perimeter rows obey the same limits per direction and interior rows are never closer together than the perimeter rows.",
 ["inputs", "configurations"], "all land sizes and spacing limits for which a spacing within the limits fits the land (and, in the bi-zoned design, at least three rows in each direction); both orientations",
 "No test builds these domains; the limits must hold for every land size and spacing range, including at rounding boundaries of the row counts.",
 [G+"domains.py"],
 [("row counts from ceil(length/B_max)+1 to floor(length/B_min)+1", G+"domains.py")])
prop("C04", "Candidate lists start at one borehole and grow",
 "Every list of candidate fields that is searched by bisection starts with a single borehole, contains no empty field, and never shrinks in number of boreholes from one entry to the next; in a nested list the largest fields of successive lists also never shrink. The near-square list is exactly n by n, n by n+1 for each n in the requested range. Reordering a list of fields by size returns the same fields, each as often as before.",
 ["inputs", "configurations"], "all land sizes, spacing limits and count ranges for which a spacing within the limits fits the land (and, in the bi-zoned design, at least three rows in each direction); arbitrary lists of fields for reordering",
 "Bisection is only right on a growing list; the tests search one near-square list and never look at the ordering of any other.",
 [G+"domains.py"],
 [("loop structure of the domain builders; reorder_domain", G+"domains.py")])
prop("C05", "The field search returns a compliant field, and the smallest one",
 "Whenever the one-dimensional search returns, for responses whose excess never grows with height, the selected field is the list entry with the returned index, its excess temperature at the maximum height is at most zero, and the heat exchanger left behind is that field at maximum height. If the excess moreover never increases along the list, and the list is no longer than two to the power of the iteration limit, the selection is the first compliant entry of the list. If the first and the last field both exceed the limits, or both stay below them at every allowed height, it raises ValueError instead of returning.",
 ["inputs", "histories"], "all candidate list lengths, all excess-temperature functions of (field, height) that do not increase with height, all iteration limits",
 "One test runs one search on one load profile; the guarantee is over every list length and every excess function the simulation could produce, including exact zeros.",
 [G+"search_routines.py", G+"utilities.py"],
 [("bracketing checks and integer bisection", G+"search_routines.py Bisection1D.search"), ("sign, check_bracket", G+"utilities.py"),
  ("initialize_ghe, calculate_excess", G+"search_routines.py")],
 [("calculated_temperatures", "excess at maximum height of each evaluated list index", G+"search_routines.py")])
prop("C06", "Nested searches return the field they selected and sized",
 "The two-dimensional search picks the inner list whose largest field the outer search selected (the first inner list if it selected the leading single borehole) and returns a compliant field of that list. The zoned search returns a compliant field of the list with the least total drilling among the lists it evaluated, and leaves the heat exchanger holding exactly that field, with long-term responses recomputed for it and sized.",
 ["inputs", "histories"], "all nested lists of candidate fields, all excess-temperature functions non-increasing in height, all sized heights",
 "No test runs either nested search.",
 [G+"search_routines.py"],
 [("outer/inner index bookkeeping", G+"search_routines.py Bisection2D.__init__, BisectionZD.__init__, BisectionZD.search_successive")])
prop("C07", "Borehole-basis and system-basis flow describe the same system",
 "For every field, giving the flow per borehole or giving that flow times the number of boreholes as system flow leads to the same system volume flow and the same mass flow per borehole, and the mass flow per borehole is the volume flow per borehole in L/s divided by 1000 times the fluid density. The heat exchanger built for any candidate field during a search uses exactly that field's coordinates, height, spacing, system flow and mass flow; a basis other than the two is refused with ValueError.",
 ["inputs", "configurations"], "all fields, flow rates, fluid densities, heights and both bases",
 "The tests compare the two bases for one 156-borehole field; the hand-over of flow, spacing and coordinates to each candidate is never checked.",
 [G+"search_routines.py", G+"ground_heat_exchangers.py", G+"utilities.py"],
 [("retrieve_flow, initialize_ghe", G+"search_routines.py"), ("BaseGHE.__init__ flow split", G+"ground_heat_exchangers.py"), ("borehole_spacing", G+"utilities.py")])
prop("C08", "Sizing returns a height in range that meets the limits if any does",
 "For any response that does not increase with height, sizing leaves the heat exchanger at a height between the minimum and maximum allowed, simulated at that height. If the limits are exceeded at the minimum height and met at the maximum, the height solves excess = 0 to the solver tolerance; if they are met everywhere the minimum height is used, and if they are met nowhere the maximum height is used, each of these two with a warning. The general root solver, for objectives it converges on within its iteration limit, returns a root when the bounds bracket one, and otherwise the upper bound when the objective is negative at both ends and the lower bound when it is positive at both.",
 ["inputs"], "all excess functions non-increasing in height, all height ranges; all objective functions and bounds for the root solver",
 "The tests size three bracketed cases; the unbracketed branches and exact zeros at a bound are never reached.",
 [G+"ground_heat_exchangers.py", PL+"equivalance.py"],
 [("GHE.size", G+"ground_heat_exchangers.py"), ("solve_root", PL+"equivalance.py")])
prop("C09", "Fluid temperatures are the superposition of all earlier load steps",
 "For every load sequence, time grid and response function, each predicted temperature equals ground temperature plus the sum over all load changes so far of the change times the response at the elapsed time, per borehole and per metre over 2 pi k, plus the present load times borehole resistance per metre, minus the present load over twice the mass flow times specific heat. In particular the present temperature never depends on later loads and zero load gives exactly the ground temperature.",
 ["inputs"], "all lengths and values of load and time arrays, all response functions, all positive physical parameters",
 "The tests compare two numbers (max and min) of three simulations; superposition over arbitrary histories is not examined.",
 [G+"ground_heat_exchangers.py"],
 [("BaseGHE._simulate_detailed", G+"ground_heat_exchangers.py")])
prop("C10", "The excess temperature is the worst violation of the two limits",
 "The excess temperature computed for a simulation is non-positive exactly when both the highest and the lowest entering fluid temperature of that simulation are within their allowed limits, and otherwise equals the larger of the two violations. A simulation reports the true maximum and minimum of all its predicted temperatures, and the prediction uses the heights, resistances and responses of the present height of the heat exchanger.",
 ["inputs"], "all temperature series, all limits, all heights and both simulation methods",
 "The suite checks one pair of extreme temperatures per tube type, far from the limits.",
 [G+"ground_heat_exchangers.py"],
 [("cost, simulate", G+"ground_heat_exchangers.py")])
prop("C11", "Splitting hourly loads loses and invents no energy",
 "For every list of hourly ground loads, the split returns two lists of the same length, both everywhere non-negative and never both non-zero in an hour, with extraction minus rejection equal to the load converted to kilowatts in every hour; the caller's list is left unchanged and unknown units are refused with ValueError.",
 ["inputs"], "all lengths and values of hourly load lists and both units",
 "One 8760-hour profile is split in one test and only aggregates of it are checked.",
 [PL+"ground_loads.py"], [("HybridLoad.split_heat_and_cool", PL+"ground_loads.py")])
prop("C12", "Monthly summaries describe the hourly loads of their own month",
 "For every year-long hourly profile, each month's total, average and peak are the sum, mean and maximum of exactly that month's hours, and the twelve totals add up to the annual total. For each month with load, the recorded peak day is the calendar day (1 to the month's length) containing the first hour at which the peak occurs. The 48-hour profile kept for it is exactly that day followed by the day after it, wrapping from 31 December to 1 January.",
 ["inputs"], "all non-negative hourly profiles of a non-leap year",
 "One profile is checked; its peaks never fall on a midnight hour or on the first day of a month.",
 [PL+"ground_loads.py"], [("Loads.split_load_by_month, Loads.process_two_day_loads", PL+"ground_loads.py")])
prop("C13", "The hybrid load sequence conserves energy and time, month by month",
 "For every pair of monthly summaries whose two peak windows in a month do not overlap and every simulated span of months, the hybrid sequence's load times duration in each month adds up to that month's rejection minus extraction total, its hours never decrease, and each month ends exactly at its last calendar hour. In the first and last twelve months every non-zero peak appears with its full magnitude, sign and duration when the month's two peak days differ, inside its own month and within an hour of being centred on midday of its peak day if that fits in the month; in all other months only the monthly average appears.",
 ["inputs", "configurations"], "all monthly totals, peaks, peak days and durations consistent with some hourly profile; all start and end months",
 "One profile and one span of months are compared with stored numbers; equal peak days, months without load, and windows at a month's edge never occur there.",
 [PL+"ground_loads.py"], [("HybridLoad.process_monthly_loads, Loads.peak_hour_range, firstmonthhour, lastmonthhour, monthdays", PL+"ground_loads.py")])
prop("C14", "Peak-duration analysis always yields a duration within 48 hours",
 "For every non-negative profile and every increasing short-time response that is, together with the resistance, non-negative, the peak duration of a month is computed without error and lies between 0 and 48 hours, and it is the time at which a constant load of peak minus average reaches the highest temperature of the scaled 48-hour profile (48 if it never does, negligible if that temperature is not above the initial one). A month whose 48-hour profile holds no load at all gets the negligible duration 1e-6.",
 ["inputs"], "all non-negative hourly profiles, all increasing response functions, all non-negative resistances",
 "One profile and one response are checked; an interpolation outside its table would crash the design and is reachable only with other profiles.",
 [PL+"ground_loads.py"], [("Loads.find_peak_durations, perform_current_month_simulation, simulate_hourly", PL+"ground_loads.py")])
prop("C15", "g-functions are looked up, corrected and joined faithfully",
 "At a height for which a response was computed, interpolation over the stored heights uses that height, and with a single stored response only (essentially) that height is accepted; the borehole-radius correction subtracts the logarithm of the radius ratio from every value. The joined response contains all long-term points and exactly the short-term points earlier than the first long-term point, each with its own value, in increasing time. Stored responses are keyed by their own height, radius and depth in increasing height, whatever order they were computed in.",
 ["inputs", "configurations"], "all stored height sets, all response tables, all radii, all short- and long-term time grids",
 "The tests use one height set and one pair of grids; touching grids, single responses and out-of-order heights are not reached.",
 [G+"gfunction.py", G+"ground_heat_exchangers.py"],
 [("GFunction.g_function_interpolation, borehole_radius_correction, configure_database_file_for_usage, compute_live_g_function", G+"gfunction.py"), ("combine_sts_lts, grab_g_function", G+"ground_heat_exchangers.py")])
prop("C16", "The equivalent single U-tube preserves what it must",
 "The equivalent single U-tube of a double U-tube or coaxial exchanger has the original's fluid volume, pipe volume and mass flow per metre of borehole, legs that fit inside its borehole without overlapping, and pipe and grout conductivities solving for the original's fluid-to-pipe and effective borehole resistance whenever the solver's range brackets them. Computing it leaves the original exchanger unchanged, and a single U-tube is its own equivalent; anything else is refused with ValueError.",
 ["inputs"], "all radii, conductivities, flows and resistances of double U-tube and coaxial exchangers",
 "Two fixed geometries are checked against stored resistances; volume, geometry, branch and aliasing guarantees are never asserted.",
 [PL+"equivalance.py", PL+"media.py"],
 [("u_tube_volumes, concentric_tube_volumes, equivalent_single_u_tube, match_effective_borehole_resistance, compute_equivalent", PL+"equivalance.py"), ("Pipe.place_pipes", PL+"media.py")])
prop("C17", "Updating an exchanger equals building it anew",
 "After updating a single U-tube, double U-tube or coaxial exchanger to a new mass flow or fluid, its convection coefficients and resistances, and the resistances handed to the thermal model, are those of an exchanger newly built with that flow and fluid (updating is update_thermal_resistance). Convective resistance is one over film coefficient times wetted perimeter; fluid-to-pipe resistance is film plus wall in series; pipes of n U-tubes are placed evenly on one circle with the stated shank spacing between opposite pipe walls.",
 ["inputs", "histories"], "all flows, fluids and geometries and all sequences of updates",
 "The tests build each exchanger once with one flow and check its resistance; updating to another flow is never exercised.",
 [PL+"borehole_heat_exchangers.py", PL+"media.py"],
 [("compute_resistances, update_thermal_resistance, compute_mass_flow_rate_pipe", PL+"borehole_heat_exchangers.py"), ("Pipe.place_pipes", PL+"media.py")])
prop("C18", "The short-time borehole model conserves heat and covers its uses",
 "At every time step of the short-time model the heat stored in all cells equals the injected heat minus what leaves through the outermost interface, each interface carrying the same conductance seen from both sides, so temperatures never fall below their initial value. The resulting response is sampled every 120 s from essentially zero to at least 48 hours, strictly increasing in time, whatever the borehole; it is 2 pi k times fluid temperature rise per watt less the borehole resistance, and recomputing it for an updated borehole gives the response of a newly built model.",
 ["inputs"], "all positive cell properties and conductances produced from any borehole, and all numbers of time steps",
 "The tests see the response only through final temperatures of three exchangers.",
 [PL+"radial_numerical_borehole.py"],
 [("fill_radial_cell, calc_sts_g_functions", PL+"radial_numerical_borehole.py")])
prop("C19", "The exported design is the selected design",
 "The exported result carries the sized borehole height, the number of boreholes of the selected field and the equivalent single U-tube's parameters, and its response table contains, in increasing time, all long-term points and an evenly strided subset of the short-term points, each with its own value.",
 ["inputs"], "all selected designs and all joined responses with at least 30 short-term points",
 "No test exports a design.",
 [G+"search_routines.py"], [("oak_ridge_export", G+"search_routines.py")])
prop("C20", "A design is refused unless its routine and constraints are complete",
 "Creating a design succeeds only for one of the four offered routines with every geometric constraint that routine needs, and then builds that routine's candidate list from exactly those constraints; anything else raises an error at creation. Running the design uses the search that belongs to the routine, with the design's own inputs, simulation method and flow basis.",
 ["configurations"], "all routine names, all subsets of given constraints, both flow bases and simulation methods",
 "The tests create one near-square design; missing constraints and the other three routines are never tried.",
 [G+"design.py", G+"media.py"], [("Design.__init__, Design.find_design", G+"design.py"), ("GeometricConstraints.check_inputs", G+"media.py")])
prop("C21", "Polygonal land and no-go zones keep exactly the allowed boreholes",
 "Removing boreholes by a polygon keeps, in order and with unchanged coordinates, exactly those on the requested side of the boundary, points on the boundary being kept or dropped as requested. Every candidate of the polygonal design lies on the property and off the building, no candidate is empty, every candidate is one of the bi-rectangular candidates with only disallowed boreholes removed, and a missing building description removes nothing.",
 ["inputs", "configurations"], "all polygons, all coordinate lists, all keep/drop options",
 "No test calls the polygon routines.",
 [G+"feature_recognition.py", G+"domains.py"],
 [("remove_cutout, determine_largest_rectangle, scale_coordinates", G+"feature_recognition.py"), ("polygonal_land_constraint, reorder_domain", G+"domains.py")])
prop("C22", "The hourly simulation covers exactly the requested months",
 "For every span of months, the hourly simulation runs exactly months/12 times 8760 hours (whole hours), hour by hour from hour 1, on the annual profile repeated from its start with extraction counted negative, without changing the caller's loads; the hybrid simulation runs the hybrid sequence in watts at its own hours. Any other method name is refused with ValueError.",
 ["inputs", "configurations"], "all month spans, all annual profiles, all method names",
 "No test runs the hourly method; partial years are never tried.",
 [G+"ground_heat_exchangers.py"], [("GHE.simulate", G+"ground_heat_exchangers.py")])
prop("C23", "The hybrid simulation reproduces the hourly temperatures",
 "For every load profile, the extreme temperatures of the monthly hybrid simulation agree with those of the full hourly simulation to engineering accuracy.",
 ["inputs"], "all hourly profiles",
 "The tests never run the hourly simulation.",
 [G+"ground_heat_exchangers.py", PL+"ground_loads.py"], [("hybrid time step", PL+"ground_loads.py")])
prop("C24", "Live g-functions match the finite-line-source solution",
 "For every borefield, the long-term responses computed live agree with the finite line source solution for that field to numerical accuracy.",
 ["inputs"], "all borefields, heights and soils",
 "The tests use three heights sets of one field.",
 [G+"gfunction.py"], [("calculate_g_function delegating to pygfunction", G+"gfunction.py")])
prop("C25", "A saved design reads back as the same design",
 "Saving any design (create_input_file) under any name and reading that name with .obj back (read_input_file), whatever was in the file before, gives a design with the same inputs, candidate fields, simulation method and flow basis, so that running it runs the same search; reading changes neither the file nor the design, and a file that is not there is refused.",
 ["inputs", "histories"], "all designs",
 "No test saves a design.",
 [G+"utilities.py"], [("create_input_file, read_input_file (pickle)", G+"utilities.py")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
