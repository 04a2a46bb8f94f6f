# Source of properties.jsonl and MANIFEST.json; run: python3 tools/props.py
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T3 = "The tests run three fixed configurations (Phillipsburg, synthetic, a BMI smoke test) over fixed forcing; "
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state or []))
HI = ["inputs", "configurations", "histories"]
prop("C01", "Water is conserved in every update and over every history",
 "In every update, the water stored in the soil and ponded on the surface before, plus the precipitation received, equals the water stored and ponded after plus evapotranspiration, surface runoff and percolation, to the model's numerical tolerance. The balance error the model reports is the one its own outputs imply, and it stays within that tolerance. Errors do not accumulate over a history.",
 HI, "all soil profiles, options, time steps, temperatures and forcing histories",
 T3 + "they look at end totals of those runs, while an error appears only for particular front interactions (crossing, merging, ponding, saturation).",
 ["src/bmi_lgar.cxx", "src/lgar.cxx"], [("per-substep balance in Update", "src/bmi_lgar.cxx"), ("lgar_move_wetting_fronts, lgar_theta_mass_balance, lgar_merge_wetting_fronts, lgar_wetting_fronts_cross_*", "src/lgar.cxx")], ["BMI outputs after Update"],
 "property-based testing: stateful histories, conservation invariant", "tolerance 1e-6 cm per update for catalogue soils, 1e-4 cm per substep (the model's own) for extreme documented-range soils; sampled, not proved")
prop("C02", "The run summary accounts for all water of the run",
 "When a run is finalized, the printed totals equal the sums of what the model reported update by update, the initial and final storage equal what the profile held, and the volume attributed to calibration is what calibration changed. The printed global balance follows from the printed totals and is zero to the model's tolerance.",
 HI, "all histories, with and without calibration", T3 + "they do not compare the summary with the per-update outputs, nor calibrate.",
 ["src/bmi_lgar.cxx", "src/lgar.cxx"], [("accumulation of totals in Update, Finalize", "src/bmi_lgar.cxx"), ("lgar_global_mass_balance", "src/lgar.cxx")], ["stdout of Finalize", "BMI outputs"],
 "property-based testing: history sums against the printed summary", "printed with 10 decimals; compared to 2e-9 cm")
prop("C03", "Runoff is routed by the unit hydrograph without loss",
 "The routed runoff of an update is the convolution of the surface runoff history with the configured unit hydrograph, redistributed to the forcing resolution. All runoff is discharged once the hydrograph has run out, no more than that, and total discharge is the routed runoff plus groundwater discharge.",
 HI, "all ordinates, forcing resolutions and runoff histories", T3 + "one set of five hourly ordinates at few resolutions; the redistribution for other resolutions is never exercised.",
 ["giuh/giuh.c", "src/bmi_lgar.cxx", "src/lgar.cxx"], [("giuh_convolution_integral", "giuh/giuh.c"), ("hourly ordinates to forcing resolution", "src/lgar.cxx:InitFromConfigFile")], ["giuh_runoff, surface_runoff, total_discharge"],
 "property-based testing: independent convolution model", "exact to 1e-12 cm; resolutions 5 min to 4 h, 1-14 ordinates")
prop("C04", "State variables stay within their physical bounds",
 "After initialization and after every update, every water content lies between the residual and saturated content of its layer, heads are finite and non-negative, conductivities lie between zero and saturated, fronts lie inside the soil and never move upward, and total storage fits the profile. All outputs are finite numbers.",
 HI, "all soils, droughts and deluges", T3 + "bounds are only violated near saturation, residual content or in extreme soils.",
 ["src/lgar.cxx", "src/soil_funcs.cxx", "src/aet.cxx"], [("clamping in lgar_theta_mass_balance, saturation handling in lgar_move_wetting_fronts", "src/lgar.cxx"), ("calc_Se_from_theta, calc_h_from_Se", "src/soil_funcs.cxx")], ["wetting front list, BMI arrays"],
 "property-based testing: bound invariants over histories", "sampled histories")
prop("C05", "The soil moisture profile is always well formed and published consistently",
 "At every moment the wetting fronts are ordered by depth, every layer has a front resting at its bottom, every front lies within its layer, and within a layer water content decreases downward. The published arrays, front count and layer depths show exactly that profile, and the published storage is the water it holds.",
 HI, "all histories, in particular thin layers where fronts cross several boundaries", T3 + "the order of merging, crossing and leaving events is what breaks the structure, and those runs meet few orders.",
 ["src/lgar.cxx", "src/linked_list.cxx", "src/bmi_lgar.cxx"], [("lgar_merge_wetting_fronts, lgar_wetting_fronts_cross_layer_boundary, lgar_fix_dry_over_wet_wetting_fronts", "src/lgar.cxx"), ("listInsertFront, listDeleteFront", "src/linked_list.cxx"), ("publication at the end of Update", "src/bmi_lgar.cxx")], ["BMI arrays, wetting front list"],
 "property-based testing: structural invariants over histories", "sampled histories, layers down to 3 cm")
prop("C06", "Surface and soil fluxes balance separately and keep their signs",
 "In every update, water arriving at the surface (rain plus previously ponded water) is split exactly into infiltration, runoff and what stays ponded, and soil storage changes exactly by infiltration minus evapotranspiration minus percolation. Evapotranspiration lies between zero and its potential, runoff and percolation are not negative, ponding never exceeds the configured maximum, and without water at the surface there is neither infiltration nor runoff nor ponding. Runoff starts only when the ponding capacity is filled.",
 HI, "all profiles, ponding depths and forcing", T3 + "compensating errors between fluxes leave total balance intact, and partial ponding is rarely reached.",
 ["src/bmi_lgar.cxx", "src/lgar.cxx", "src/aet.cxx"], [("ponding and runoff partition in Update", "src/bmi_lgar.cxx"), ("lgar_insert_water", "src/lgar.cxx"), ("calc_aet", "src/aet.cxx")], ["BMI outputs and ponded depth"],
 "property-based testing: flux identities and sign invariants", "in a completely full profile the model's own relaxation of about 1e-3 cm per substep is allowed for percolation and AET")
prop("C07", "Time advances by the forcing step and forcing amounts follow the rates",
 "Each update advances model time by the forcing resolution, or to the first substep at or after the configured end time, and the precipitation and potential evapotranspiration of the update are exactly rate times elapsed time. Start, end, step and current time are reported accordingly, forcing inputs are left as set, and advancing to a later time equals as many updates as that takes.",
 HI, "all time steps (also not dividing the resolution), resolutions, end times and targets", T3 + "one resolution with a time step that divides it, and no end time inside an update.",
 ["src/bmi_lgar.cxx"], [("subcycle loop and end time in Update; UpdateUntil; GetCurrentTime etc.", "src/bmi_lgar.cxx")], ["BMI time functions, precipitation outputs"],
 "property-based testing: time model, twin replay of UpdateUntil", "exact to 1e-6 s")
prop("C08", "Actual evapotranspiration follows the documented stress law",
 "Actual evapotranspiration of a step is the potential amount times the stress factor given by the head of the surface water content, the wilting point and the field capacity, and is zero without potential evapotranspiration. It therefore never increases when the surface is drier.",
 HI, "all soils, wilting points, field capacities and moisture states", T3 + "a different exponent, head or soil in the law shifts outputs slightly and unseen.",
 ["src/aet.cxx", "src/bmi_lgar.cxx"], [("calc_aet", "src/aet.cxx")], ["actual_evapotranspiration, soil_moisture_wetting_fronts"],
 "property-based testing: reference model of the law", "reference: published S-shaped law with h_50 at the midpoint; updates whose outcome hinges on rounding are not judged")
prop("C09", "Infiltration, ponding and runoff follow the infiltration capacity",
 "Rain and ponded water infiltrate up to the Green-Ampt infiltration capacity of the current profile (conductivity of the wetted layers in series, capillary drive and ponded head), the excess ponds up to the configured depth, and only what exceeds it runs off.",
 HI, "all profiles, rain around the capacity, ponding depths", T3 + "few steps are infiltration limited, none with ponding in several layers.",
 ["src/lgar.cxx", "src/bmi_lgar.cxx", "src/soil_funcs.cxx"], [("lgar_insert_water", "src/lgar.cxx"), ("calc_Geff", "src/soil_funcs.cxx")], ["infiltration, surface_runoff, ponded depth"],
 "differential property-based testing against a reference model, state-synchronised per update", "reference model restarted from the model's own state before each update; thresholds within rounding are not judged")
prop("C10", "The profile evolves as the layered Green-Ampt redistribution model prescribes",
 "From any reachable state, one update moves, creates, merges and removes wetting fronts, lets them cross layer boundaries and leave at the bottom, and distributes the water to the depths and water contents that the layered redistribution model prescribes. Percolation is the water of fronts leaving at the bottom.",
 HI, "all reachable states and forcing steps", T3 + "they compare end totals with stored values within wide tolerance for three runs.",
 ["src/lgar.cxx", "src/bmi_lgar.cxx"], [("lgar_move_wetting_fronts, lgar_create_surficial_front, lgar_theta_mass_balance, lgar_merge_*, lgar_wetting_front_cross_*, lgar_fix_dry_over_wet", "src/lgar.cxx")], ["profile and fluxes after Update"],
 "differential property-based testing against a reference model, state-synchronised per update", "the reference model is an independent reimplementation; depths to 3e-5 cm, water contents to 3e-6")
prop("C11", "Wetting fronts advance at the physically prescribed speed",
 "The speed of every moving front follows from the conductivities of the layers above it in series, its capillary drive (numerical or closed form as configured), the ponded head and the water content jump across it. A front that meets nothing advances by speed times step.",
 HI, "all profiles and both forms of the capillary drive", T3 + "one wrong layer in the series conductivity shows only when conductivities differ strongly in a deep layer.",
 ["src/lgar.cxx", "src/soil_funcs.cxx"], [("lgar_dzdt_calc", "src/lgar.cxx"), ("calc_Geff", "src/soil_funcs.cxx")], ["front speeds and depths"],
 "property-based testing: independent speed formula", "relative tolerance 1e-5")
prop("C12", "Water content, head and conductivity obey the van Genuchten-Mualem relations",
 "Initially every layer is at the configured head, with the water content and conductivity that head implies. Afterwards every front's water content, head and conductivity lie on the soil curves of its layer, and the head is continuous across layer boundaries.",
 HI, "all soils and reachable states", T3 + "the unit tests sample the curves at a few points; stale heads or conductivities of fronts arise in histories.",
 ["src/soil_funcs.cxx", "src/lgar.cxx"], [("calc_theta_from_h, calc_h_from_Se, calc_K_from_Se", "src/soil_funcs.cxx"), ("psi and K updates of fronts", "src/lgar.cxx")], ["wetting front list"],
 "property-based testing: constitutive relations as oracle over histories", "conductivity of the deepest front, which the model does not use, is not judged after the start")
prop("C13", "Results depend only on configuration and forcing",
 "Two runs with the same configuration and forcing give bit-identical outputs and profiles, whatever memory contained before, whatever the verbosity, and whatever other model instances are initialized, run and finalized before or in between.",
 ["inputs", "configurations", "histories", "schedules"], "all histories, interleavings of instances and verbosities", T3 + "one instance at a time and one verbosity; uninitialised reads happen to see zeros.",
 ["src/bmi_lgar.cxx", "src/lgar.cxx", "include/all.hxx"], [("all state in the instance; initialisation of every field", "src/lgar.cxx, include/all.hxx")], ["all BMI outputs"],
 "property-based testing: self-differential runs, interleaved instances, poisoned heap", "glibc heap fill makes uninitialised heap reads visible; stack reads only by chance (also covered by C19's sanitizers)")
prop("C14", "The model interface is consistent and honest",
 "For every variable, declared grid, type, item size, byte count and units agree with the data returned, at every moment including after the number of fronts changed. Reading by copy, pointer and index agree; setting changes exactly the named variable or elements and reads back exactly; updates leave inputs alone; unknown names and missing functions are refused.",
 HI, "all sequences of interface calls", T3 + "the BMI test calls each function once in a fixed order on one configuration.",
 ["src/bmi_lgar.cxx", "include/bmi_lgar.hxx"], [("GetVar*, GetGrid*, GetValue*, SetValue*", "src/bmi_lgar.cxx")], ["all BMI functions"],
 "model-based (stateful) property-based testing of the API", "exact comparison")
prop("C15", "Configuration files mean what they say in any equivalent spelling",
 "Order of entries, time units, notation of numbers, optional entries left at their default, comments, unknown entries, blanks in lists and a missing final newline do not change any result. A configuration lacking a mandatory entry, or with an invalid option or a soil file that does not exist, is refused, and a missing entry is named.",
 ["inputs", "configurations"], "all configurations and their rewritings", T3 + "each uses one spelling; refusals are not tested.",
 ["src/lgar.cxx"], [("InitFromConfigFile, ReadVectorData", "src/lgar.cxx, src/util_funcs.cxx")], ["Initialize, time functions, all outputs"],
 "metamorphic property-based testing", "rounding differences up to 1e-9 from unit conversion are tolerated")
prop("C16", "Layers use the soil rows they name; soils without parameters pass rain through",
 "Each layer uses exactly the row of the soil table its soil type names, whatever the table's length, names and layout, up to the configured number of valid types. If any layer names a soil without parameters, every update passes the precipitation through as runoff and discharge, with zero for the other fluxes, and time advances as usual.",
 ["inputs", "configurations", "histories"], "all tables, limits and layer soil types", T3 + "the same table with the same rows; no invalid type.",
 ["src/lgar.cxx", "src/bmi_lgar.cxx"], [("lgar_read_vG_param_file, soil type range check", "src/lgar.cxx"), ("invalid soil branch of Update", "src/bmi_lgar.cxx")], ["calibration variables, all outputs"],
 "metamorphic property-based testing: table against the rows alone", "1-40 rows")
prop("C17", "Freeze-thaw coupling scales each layer's conductivity by its own temperature",
 "With coupling on, each layer's conductivity is scaled by the frozen factor of the mean temperature of the cells inside that layer, once, and follows the temperatures set before each update. Soil above freezing behaves exactly as without coupling, and constant temperatures exactly as a soil with the scaled saturated conductivities.",
 HI, "all temperature grids and histories", T3 + "no test sets temperatures.",
 ["src/lgar.cxx", "src/bmi_lgar.cxx"], [("frozen_factor_hydraulic_conductivity", "src/lgar.cxx"), ("use of frozen_factor in dzdt, infiltration and conductivity", "src/lgar.cxx")], ["all outputs, conductivities"],
 "metamorphic and differential property-based testing", "grids that leave a layer without any cell are not judged")
prop("C18", "Calibration equals configuring the calibrated values",
 "With calibration on, values set for the calibratable variables before the first update give the same results as configuring the model with them, layer by layer, also for layers that share a soil type. With calibration off, or after the first update, setting them has no effect on results, and the stored water calibration changed is reported.",
 HI, "all calibration values, per layer", T3 + "the BMI test sets values once and reads them back, without comparing results.",
 ["src/bmi_lgar.cxx", "src/lgar.cxx"], [("update_calibratable_parameters", "src/bmi_lgar.cxx")], ["all outputs, summary"],
 "metamorphic property-based testing: calibrated twin against configured twin", "values within the range of real soils")
prop("C19", "No use of the model corrupts memory, leaks, or runs forever",
 "No valid configuration, forcing and sequence of interface calls from initialization to finalization reads or writes outside its memory, after freeing it, or executes undefined behaviour, and repeated lifecycles do not accumulate memory. Damaged configuration or soil files are accepted or refused, without memory errors and without hanging.",
 ["inputs", "configurations", "histories"], "all call sequences, and files damaged in any way", T3 + "run without sanitizers, on intact files.",
 ["src/bmi_lgar.cxx", "src/lgar.cxx", "src/linked_list.cxx", "src/mem_funcs.cxx", "src/util_funcs.cxx", "giuh/giuh.c"], [("list insertion and deletion", "src/linked_list.cxx"), ("publication arrays sized by the number of fronts", "src/bmi_lgar.cxx"), ("parsers", "src/lgar.cxx, src/util_funcs.cxx"), ("Finalize, destructor", "src/bmi_lgar.cxx")], ["sanitizer reports, allocation accounting"],
 "fuzzing with address/undefined-behaviour sanitizers; structured mutation of files", "sanitizers see the executed paths; uninitialised reads are covered by C13")
prop("C20", "The standalone program reproduces the library for its forcing file",
 "Run with a configuration, the program applies the rows of the forcing file in order, one per update, until the configured end time, and writes for each exactly the outputs and the soil profile the library gives for that forcing, stamped with the row's time, and the run summary. It does not end normally when the forcing has too few rows or cannot be read.",
 ["inputs", "configurations"], "all forcing files and configurations", T3 + "they compare final numbers of three runs loosely; the files written are not compared row by row.",
 ["src/bmi_main_lgar.cxx"], [("main loop, ReadForcingData, write_state", "src/bmi_main_lgar.cxx")], ["data_variables.csv, data_layers.csv, stdout, exit status"],
 "differential property-based testing: program against library", "text precision of the files")
prop("C21", "Subcycling and adaptive steps change nothing but the step length",
 "An update with n substeps equals n updates of one substep. Adaptive stepping equals the fixed step it documents: the configured step in heavy rain or with ponding, twice that in light rain, the whole forcing step without rain. A step that does not divide the forcing step equals the next shorter one that does.",
 HI, "all steps, resolutions, rain regimes", T3 + "one fixed step and one adaptive run.",
 ["src/bmi_lgar.cxx"], [("subcycle count and adaptive step in Update", "src/bmi_lgar.cxx")], ["all outputs"],
 "metamorphic property-based testing: twins", "exact to rounding (1e-9), then bounded drift")
prop("C22", "At rest without forcing; without surface water the soil only loses water",
 "A freshly initialized profile stays exactly as it is, with zero fluxes, while there is no forcing. Whenever there is no water at the surface, storage does not rise, falls by no more than evapotranspiration plus percolation, no front appears or rises, and nothing percolates unless a front moves.",
 HI, "all profiles, quiet starts and dry spells", T3 + "their forcing starts with rain and they look at totals.",
 ["src/lgar.cxx", "src/bmi_lgar.cxx"], [("front creation condition in Update", "src/bmi_lgar.cxx"), ("lgar_move_wetting_fronts", "src/lgar.cxx")], ["outputs, profile"],
 "property-based testing: invariants over quiet and dry periods", "sampled histories")
prop("C23", "Built for the framework, updates are never cut short by the end time",
 "In the build for the Next-Generation framework, instances come from the factory functions, every update covers the full forcing step, also beyond the configured end time, and results do not depend on the configured end time.",
 HI, "all end times and histories", "The tests never build that variant.",
 ["src/bmi_lgar.cxx", "include/bmi_lgar.hxx"], [("NGEN branch of Update; bmi_model_create/destroy", "src/bmi_lgar.cxx, include/bmi_lgar.hxx")], ["time, outputs"],
 "metamorphic property-based testing: twins with different end times", "bit for bit")
exec(open(os.path.join(here, "tools", "more.py")).read()) if os.path.exists(os.path.join(here, "tools", "more.py")) else None
with open(here + "/properties.jsonl", "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="./build.sh plain && ./build.sh asan && ./build.sh exe && ./build.sh ngen",
  checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough", technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
  not_applicable=[], notes="No hooks in /repo. ./check.sh replay <file> replays a saved case. Repairs in /repo are listed in known_findings.txt.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1); open(here + "/MANIFEST.json", "a").write("\n")
