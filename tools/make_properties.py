import json
P=[]
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=""):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
     "anchors":{"files":files,"state":[{"name":s} for s in state],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}})
S="python/src/adctoolbox/"
ALL=[S+x for x in ("fundamentals/","spectrum/","aout/","dout/","calibration/","oversampling/","timeinterleave/","models/","siggen/nonidealities.py")]
p("C01","Concurrent callers get the answers they would get alone",
 "When several threads call the library's analysis, calibration, conversion and signal-generation functions at the same time, on shared or separate inputs and on a shared signal generator, each call returns (or raises) exactly what the same call returns alone in a fresh process, up to floating-point rounding. Every call finishes: no interleaving leaves a caller waiting forever.",
 ["schedules","inputs"],"every interleaving of any number of non-plotting calls from several threads",
 "Tests call one function at a time in one thread; hidden shared state (module buffers, caches, attributes stored on shared objects, process-wide switches) only shows under particular interleavings.",
 ALL,["module-level tables and caches","attributes of a shared signal generator"],
 [("no module-level mutable state is written by calls",S+"**"),("temporary error-state contexts",S+"spectrum/compute_spectrum.py, aout/rearrange_error_by_*.py, fundamentals/snr_nsd.py")],
 ["return values","raised exceptions"])
p("C02","Answers do not depend on what ran before",
 "Any sequence of earlier successful or rejected library calls in the same process, including plotting calls and calls on the same generator object or on equal-sized or re-used arrays with different content or options, leaves the answer of the next call unchanged: it equals, up to floating-point rounding, the answer in a fresh process.",
 ["histories","inputs"],"every finite history of public calls, followed by every call",
 "Tests check each call once in an arbitrary process state; a stale cache or remembered default is visible only after a specific pair or longer sequence of calls.",
 ALL+[S+"toolset/"],["module-level tables, default arguments, attributes of reused objects"],
 [("default tables consulted by window handling",S+"spectrum/_window.py, _side_bin_auto.py"),("signal generator recomputes from constructor parameters",S+"siggen/nonidealities.py")],
 ["return values","raised exceptions"])
p("C03","Data handed in by the caller is never modified",
 "No library call changes any array, list or dictionary passed to it, nor the memory around an array view, nor the observable parameters of a generator object it is called on, whether the call succeeds, is rejected, or dies part-way from a memory, numerical or interrupt failure, and regardless of dtype, memory layout and options. A random generator that is passed in is advanced only as the documented source of randomness, and drawing-target axes may be drawn on.",
 ["inputs","histories","fault_sequences"],"every call, every input layout, every failure point inside the call",
 "Tests rarely compare inputs before and after and never with strided, Fortran-ordered, 32-bit or integer inputs across option combinations, nor after a failure in the middle.",
 ALL+[S+"toolset/"],["caller-owned arrays and containers"],
 [("working copies before in-place updates",S+"calibration/_patch_rank_deficiency.py, calibration/_prepare_input.py, timeinterleave/calibrate_foreground.py, siggen/nonidealities.py _resolve_signal")],
 ["argument arrays, lists, dicts after the call"])
p("C04","Results already handed out never change and are not shared",
 "A result returned by one call is never altered by any later call, and a caller who edits a returned result in place never changes the answer of a later call on intact inputs.",
 ["histories","schedules"],"every history of calls with arbitrary caller edits of returned results in between",
 "Tests discard a result before making the next call, so a re-used output buffer or a cached object handed out twice is invisible to them.",
 ALL,["returned arrays and dictionaries"],
 [("fresh result objects per call",S+"**")],["earlier return values","later return values"])
p("C05","Process-wide settings are left as they were found",
 "Importing the package or making any library call, successful, rejected or failing part-way, alone or concurrently from several threads, leaves floating-point error handling, warning filters, array print options, plotting defaults and backend, working directory, environment and recursion/locale settings exactly as they were before.",
 ["histories","schedules","fault_sequences"],"every history, interleaving and failure point of public calls, for any prior value of those settings",
 "Tests run with default settings and never look at them afterwards; a setting that leaks only when a call fails or two calls overlap cannot be seen.",
 ALL+[S+"toolset/",S+"cli.py",S+"skill_cli.py"],["numpy error state, warnings filters, matplotlib rcParams/backend, cwd, environ"],
 [("error-state context managers",S+"spectrum/compute_spectrum.py"),("backend switching in non-plotting paths",S+"aout/analyze_error_spectrum.py, aout/analyze_error_envelope_spectrum.py")],
 ["process-wide settings read through their public getters"])
p("C06","A call that dies midway does not poison the session",
 "If a call fails part-way because an allocation fails, a numerical routine fails to converge, or the user interrupts it, the failure reaches the caller as an exception (never as a silently wrong or partial answer), and every later call in the same process still finishes and returns what it would return in a fresh process.",
 ["fault_sequences","histories"],"every failure point at a call into the numerical library, every failure kind, every later call",
 "Tests never make the numerical library fail inside a call; half-updated caches, swallowed exceptions and locks left held appear only then.",
 ALL,["module-level state, caches, locks"],
 [("exceptions propagate unmodified",S+"**"),("rank-deficiency and search fallbacks",S+"calibration/")],["raised exception","return values of later calls"])
p("R01","A supplied random generator is the only source of randomness",
 "When the caller supplies a random generator to the converter and mismatch models, the result is a function of the arguments and that generator's state alone: equal generators give equal results whatever other random activity, thread interleaving or earlier calls happen, and neither the process-wide random state nor any other generator is read or advanced.",
 ["schedules","histories","inputs"],"every interleaving with other random consumers, every generator state, every earlier history",
 "Tests seed one generator in a quiet process; mixing in the global stream or a remembered generator passes them.",
 [S+"models/sar.py"],["supplied generator state","process-wide random state"],
 [("fallback generator only when none is supplied",S+"models/sar.py sar_convert, sar_apply_mismatch, sar_apply_cap_mismatch")],["converted codes, mismatched weights","random states"])
p("R02","Seeded noise sequences replay whatever analyses run in between",
 "After seeding the process-wide random state, the sequence of noisy signals produced by the signal generator is the same on every run, no matter which analyses, calibrations, conversions with a supplied generator, deterministic impairments or plots (including ones that fail) are interleaved, because none of those reads or advances the process-wide random state.",
 ["histories","inputs"],"every history interleaving noisy signal generation with other public calls",
 "Tests never interleave analyses between seeded draws and compare against the undisturbed sequence.",
 [S+"siggen/nonidealities.py"]+ALL[:8]+[S+"toolset/"],["process-wide random state"],
 [("noise drawn from the process-wide stream",S+"siggen/nonidealities.py apply_thermal_noise, apply_jitter, apply_am_noise, apply_drift, apply_glitch"),("deterministic analyses draw nothing",S+"**")],["generated signals","process-wide random state before and after each call"])
p("R03","Randomness enters only through the noise the caller asked for",
 "With every noise or mismatch level set to zero, the random impairments and the converter model return the same values as the ideal noise-free computation for every state of the random source; with a non-zero level, two different random states give different noise and one random state always gives the same noise.",
 ["inputs","histories"],"every state of the random source and every signal or weight set",
 "Tests fix a single seed; an effect that remains at zero level, or noise frozen across calls, passes a fixed-seed test.",
 [S+"models/sar.py",S+"siggen/nonidealities.py"],["random state"],
 [("level multiplies the draw",S+"models/sar.py, siggen/nonidealities.py")],["codes, weights and signals"])
p("I01","Every import history ends with the same library",
 "Importing the package or any of its modules, in any order, from several threads that each import the package first, again by reloading a module, or after an earlier import was interrupted or failed part-way (user interrupt, out of memory, unreadable module file), ends with the same public interface once an import succeeds: every public name refers to the function it refers to after one plain import, and calls give the same answers. No import waits forever, and no import that meets no failure fails.",
 ["schedules","histories","fault_sequences"],"every order of imports, every interleaving of importing threads, every point at which an import is interrupted",
 "Tests import the package once, in one order, without interruption; work done at import time that cannot be repeated or depends on order goes unseen.",
 [S+"__init__.py",S+"aout/__init__.py",S+"dout/__init__.py",S+"calibration/__init__.py",S+"spectrum/__init__.py"],["module registry, names bound in packages, registrations made at import time"],
 [("package imports its parts",S+"__init__.py"),("names re-exported by packages",S+"aout/__init__.py, dout/__init__.py, calibration/__init__.py, spectrum/__init__.py")],["public names of every module and what they refer to"])
p("F01","Computation-only calls never touch open figures",
 "A call that is asked not to plot creates, closes, clears, draws on or selects no figure or axes, and does not switch the plotting backend, whatever figures are open and whichever is current, and also when it fails part-way.",
 ["histories","fault_sequences"],"every set of open figures, every non-plotting call, every failure point",
 "Tests run with no user figure open, so closing or drawing on the current figure goes unseen.",
 [S+"aout/",S+"spectrum/",S+"dout/",S+"oversampling/"],["pyplot figure registry, contents of open figures, backend"],
 [("plot flag honoured",S+"aout/analyze_error_spectrum.py, aout/analyze_error_envelope_spectrum.py, spectrum/analyze_spectrum.py, dout/*")],["open figure numbers, current figure and axes, artists of every figure, backend"])
p("F02","Plots land only on the axes they were aimed at",
 "A plotting call given axes draws into that axes' slot of its own figure and nowhere else; given none it draws on the current axes (or, for the calls documented to make their own figure, on one new figure). All other figures, and all other axes of the same figure, keep exactly the content they had, whichever figure happens to be current.",
 ["histories"],"every sequence of plotting calls over several open figures with arbitrary current figure/axes",
 "Tests plot on one fresh figure at a time; drawing through the current-axes shortcut is indistinguishable there.",
 [S+"aout/plot_*.py",S+"aout/analyze_*.py",S+"spectrum/plot_*.py",S+"dout/",S+"oversampling/"],["pyplot current figure/axes; artists of every open figure"],
 [("explicit axes versus current-axes fallback",S+"spectrum/plot_spectrum.py, aout/plot_dnl_inl.py and others")],["artists, titles and limits of every axes of every open figure"])
p("F03","Asking for a plot never changes the numbers",
 "For every analysis called with arguments in their documented ranges, the returned values are the same whether or not a plot is requested, with explicit axes or with the current axes, and whatever figures, plotting defaults or earlier plots exist.",
 ["histories","configurations"],"every analysis, every plotting mode and figure state",
 "Tests check numbers with plotting off or on, never both for the same input under varying figure state.",
 [S+"aout/",S+"spectrum/",S+"dout/",S+"oversampling/"],["returned values"],
 [("plot branches after the computation",S+"**/analyze_*.py")],["return values"])
p("D01","A dashboard is announced as saved only when it is fully on disk",
 "When a dashboard function reports that it saved its image (returns normally or prints the announcement) to a path naming an image type, a complete, decodable image is at exactly that path, with parent folders created even if another process creates them at the same time; when creating the folder, opening, writing or closing the file fails, the call raises and announces nothing.",
 ["fault_sequences","crash_points"],"every disk fault at every file operation of a dashboard save, and every pre-existing state of the output path",
 "Tests save to a healthy disk only.",
 [S+"toolset/generate_aout_dashboard.py",S+"toolset/generate_aout_dashboard_3x4.py",S+"toolset/generate_dout_dashboard.py"],["output file"],
 [("save before announce",S+"toolset/*.py")],["stdout, raised exception, bytes at the output path"])
p("D02","Dashboards are the same in a busy session as in a fresh one",
 "A dashboard has the same panels with the same content whatever figures are open, whichever is current, and whatever dashboards or failed dashboards came before; it changes none of the other figures, and once saved to a file it leaves no extra figure open, so batches do not accumulate figures.",
 ["histories","fault_sequences"],"every history of plots, dashboards and failed dashboards before the call",
 "Tests build each dashboard in a session with no other plots and never inspect what stays open.",
 [S+"toolset/",S+"aout/",S+"spectrum/",S+"dout/"],["pyplot registry and current axes"],
 [("current-axes selection per panel; close after save",S+"toolset/*.py")],["panel contents, open figures"])
p("S01","A skill install reported as done is complete",
 "When the skill installer reports success, every requested skill is present at the requested place as a complete byte-for-byte copy of the bundled skill (or, in editable mode, a link to it), and the reported list names exactly those; whenever a disk or system fault prevents that, it reports failure through a non-zero exit or an exception.",
 ["fault_sequences","inputs","histories"],"every request, every prior state of the destination, every sequence of file-system faults",
 "Tests install onto a healthy disk only; no test makes a copy fail, run short or hit a full disk.",
 [S+"skill_cli.py"],["destination directory tree"],
 [("copy/link per requested skill",S+"skill_cli.py install_bundled_skills"),("success printed last",S+"skill_cli.py main")],["exit status, returned list, printed report, destination tree"])
p("S02","Nothing already installed is replaced without force",
 "Without the force option, whatever already exists under a skill's name in the destination (a folder, even an empty one, a file, a working or dangling link) stays exactly as it is and the installer reports failure, also when faults occur and when the installer is killed at any point. The same holds for a file, link or non-empty folder that appears there while the installer is running.",
 ["histories","schedules","crash_points","fault_sequences"],"every prior destination state, every interleaving with another writer, every fault and crash point",
 "Tests cover one pre-existing folder in a quiet single process.",
 [S+"skill_cli.py"],["destination entries"],
 [("existence check and exclusive creation",S+"skill_cli.py install_bundled_skills")],["destination entries before and after, exit status"])
p("S03","The installer touches nothing but the skills it was asked for",
 "Whatever the options, prior state, faults or crash point, the installer never changes or removes the bundled skill sources, other entries of the destination folder, or anything reached through links at or inside the place being replaced; a forced replacement of a link removes only the link, and a run without faults leaves no stray entries behind. The status and list commands change nothing at all.",
 ["histories","crash_points","fault_sequences","inputs"],"every destination content including links to other places, every option set, every fault and crash point",
 "Tests use empty destinations with no links or neighbours, and no faults.",
 [S+"skill_cli.py"],["bundled sources, neighbouring entries, link targets"],
 [("link unlinked, directory removed without following links",S+"skill_cli.py install_bundled_skills")],["full tree snapshot outside the requested skill entries"])
p("S04","Skill status always tells the truth",
 "At any moment, after any history of installs, edits, corruption, crashes and earlier status queries in the same process, status reports the right kind for each requested skill (missing, copied folder, editable link, or something else) and says it is in sync exactly when the installed files and folders are the same as the bundled ones, byte for byte (version-control and bytecode-cache folders aside), or, for a link, when it leads to the bundled skill. A fault while reading never produces an in-sync report for a skill that is not.",
 ["histories","crash_points","fault_sequences"],"every history of installs, crashes, edits that keep size and timestamp, replaced files and folders, and repeated queries",
 "Tests check status right after a clean install and one simple edit.",
 [S+"skill_cli.py"],["destination tree; comparison caches"],
 [("tree comparison",S+"skill_cli.py _dirs_equal"),("classification",S+"skill_cli.py skill_status")],["status rows and printed status"])
p("S05","After any crash or fault a forced install repairs the skill",
 "Once faults stop, a single forced install of the skill succeeds from whatever state earlier crashes, failed installs, torn files or foreign content left behind, and afterwards status reports it as installed and in sync; repeating it changes nothing.",
 ["crash_points","fault_sequences","histories"],"every state reachable by crashing or faulting earlier installs at any point, plus torn or foreign content",
 "Tests never leave the destination half-written before a forced install.",
 [S+"skill_cli.py"],["destination tree"],
 [("forced replacement",S+"skill_cli.py install_bundled_skills")],["exit status, status rows, destination tree"])
p("S06","Of several simultaneous installers at most one wins each skill",
 "When several installers without force run at once on the same destination, for each skill at most one of them reports success for it, the winner's installation (copy or link) is complete and undisturbed at the end, every other reports failure, and if no fault occurs and all of them ask for the same skills, every one of those skills is installed at the end.",
 ["schedules","fault_sequences"],"every interleaving of file-system operations of several installers",
 "Tests run one installer at a time.",
 [S+"skill_cli.py"],["destination entries"],
 [("exclusive creation of the target",S+"skill_cli.py install_bundled_skills")],["exit statuses, final destination tree"])
p("S07","A failed or killed install never leaves a half-written skill",
 "At every moment of an install, and after a failure or kill at any point, the place of each skill holds either what was there before, untouched, or the complete new skill, or nothing, but never a partial copy. When a forced replacement fails because of a full disk or any single fault, each skill is still either the intact previous installation or the complete new one.",
 ["crash_points","fault_sequences","schedules"],"every fault and kill point of fresh and forced installs, and every moment another process looks",
 "No test interrupts an install.",
 [S+"skill_cli.py"],["destination entries"],
 [("replacement of an existing target",S+"skill_cli.py install_bundled_skills")],["destination tree at every step, exit status"])
p("E01","A reported examples copy is complete; anything else is an error",
 "When the examples command reports success, the destination holds every bundled example file byte for byte in the same folder structure, without bytecode caches or anything else; when a disk or system fault prevents that, it ends with a non-zero status and does not print success.",
 ["fault_sequences","inputs"],"every sequence of file-system faults during the copy, every destination spelling",
 "No test runs this command at all.",
 [S+"cli.py"],["destination tree"],
 [("copy then report",S+"cli.py copy_examples")],["exit status, stdout, destination tree"])
p("E02","The examples command never disturbs existing files",
 "If the destination already exists in any form, or comes into existence while the command runs, the command fails and leaves it as it was (apart from a copy the command itself had begun); nothing else in the working directory or the package is changed at any fault or kill point, and of several simultaneous commands with the same destination at most one reports success, with a complete result.",
 ["schedules","crash_points","fault_sequences","histories"],"every prior state, interleaving with other writers, fault and kill point",
 "No test runs this command at all.",
 [S+"cli.py"],["working directory tree, package examples"],
 [("refusal of existing destination and exclusive creation",S+"cli.py copy_examples")],["tree snapshots, exit statuses"])
p("M01","The external test runner never reports success without a successful run",
 "The runner for the external numerical test suites ends with status zero only if the external program was really started for the requested suite and itself ended with status zero, or the caller asked for a dry run, or asked that a missing program be tolerated and none was named explicitly and none was found; launch failures, kills by signal, and an explicitly named but unusable program always give a non-zero status, and an explicitly named program is never replaced by another one.",
 ["fault_sequences","configurations","schedules"],"every state of the search locations, every launch fault, every way the child can end, and programs that vanish between discovery and launch",
 "Unit tests cover a few discovery cases with stubs; none covers launch faults, signals or a vanishing program.",
 ["matlab/tests/run_matlab_tests.py"],["child process status"],
 [("status propagation",  "matlab/tests/run_matlab_tests.py main")],["exit status, commands actually launched"])
# --- numerical properties: stated, not decided by this technique
def n(id,title,st,qt,files,obs,why):
    p(id,title,st,["inputs"],qt,why,files,[],[],obs)
W="Tests check chosen signals with tolerances; the claim is over all inputs."
n("N01","Spectral metrics equal their textbook definitions","For every record, window and band limit, the reported SNDR, SNR, SFDR, THD, noise floor and ENOB equal the ratios of the powers of the corresponding spectral bins, and are mutually consistent.","every record, window, oversampling ratio",[S+"spectrum/"],["metrics dictionary"],W)
n("N02","Sine fit recovers frequency, amplitude, phase and offset","For every sine in the valid frequency range plus bounded noise, the fitted parameters converge to the true ones within the noise-limited error, and the residual is orthogonal to the fitted sine.","every sine and noise bound",[S+"fundamentals/fit_sine_4param.py"],["fit result"],W)
n("N03","Weight calibration recovers true bit weights","For every full-rank bit record of a sine, foreground calibration returns weights equal to the true ones up to a common scale, and rank-deficient bits are handled without changing the reconstructed signal.","every bit matrix of a sine through a linear converter",[S+"calibration/"],["calibrated weights and signal"],W)
n("N04","Converter model round trip stays within one step","Without noise, converting any in-range input and reconstructing it with the same weights gives the input back within one least-significant step, and out-of-range inputs saturate.","every input and weight set",[S+"models/sar.py"],["codes and reconstruction"],W)
n("N05","Unit conversions are mutual inverses","Every pair of unit conversions (decibels, bins, LSB, dBm, ENOB, noise density) are inverse to each other over their domains.","every number or array in the domain",[S+"fundamentals/units.py",S+"fundamentals/snr_nsd.py"],["converted values"],W)
n("N06","Interleaving and de-interleaving are inverse","Splitting a record into channels and merging them again returns the record (truncated to whole frames), for every channel count.","every record and channel count",[S+"timeinterleave/deinterleave.py"],["arrays"],W)
n("N07","Mismatch extraction and correction cancel","Applying known gain, offset and skew mismatch and then calibrating with the extracted parameters leaves residual spurs below the extraction error, for every channel count and input frequency.","every mismatch set",[S+"timeinterleave/"],["calibrated record"],W)
n("N08","INL and DNL follow from the code histogram","For every code record, DNL is the relative code width, INL its running sum under the chosen end-point rule, and missing codes are those with no hits.","every code record",[S+"aout/compute_inl_from_ramp.py",S+"aout/compute_inl_from_sine.py"],["INL, DNL, missing codes"],W)
n("N09","Error decomposition adds up","Fundamental, harmonics and residual returned by the decomposition sum to the input, and error powers by phase and value partition the total error power.","every signal",[S+"aout/"],["decomposed signals"],W)
n("N10","Coherent frequency search returns the best legal bin","The returned bin is odd (if requested), coprime with the record length, and no closer such bin exists in the search range; folding maps any frequency into the first Nyquist zone.","every rate, target and length",[S+"fundamentals/frequency.py"],["frequency and bin"],W)
n("N11","Overflow, activity and radix reports match the bits","Bit activity, overflow percentages and weight ratios equal direct counts over the bit record for every record and weight set.","every bit record",[S+"dout/"],["reported arrays"],W)
n("N12","Band filtering keeps exactly the requested bands","Band extraction and filtering keep spectral content inside the requested bands and remove the rest, and noise-transfer analysis equals the in-band integral.","every record and band list",[S+"oversampling/",S+"spectrum/extract_freq_components.py"],["filtered record"],W)
n("N13","Invalid data is rejected, valid data accepted","Validation and argument checks reject every malformed record or option with a clear error and accept every well-formed one.","every input",[S+"fundamentals/validate.py",S+"aout/compute_inl_from_ramp.py"],["raised errors"],W)
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
