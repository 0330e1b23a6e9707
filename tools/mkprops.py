import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
D,G,C,F,L="src/detail.rs","src/gerg2008.rs","src/composition.rs","src/ffi.rs","src/lib.rs"
p("C01","Composition total counts every component exactly once",
 "The total reported for a gas composition is the sum of the mole fractions of all 21 components, each counted exactly once and with weight one.",
 ["inputs"],"every composition (any 21 floating-point values)",
 "The tests sum two or three fixed compositions; omitting or double counting a component that is zero there (or compensated) goes unseen.",
 [C],[("Composition::sum",C)],obs=["Composition::sum"])
p("C02","Normalisation scales every component by the reciprocal of the total",
 "Normalising a composition with a positive, finite total succeeds and multiplies each of the 21 fractions by the same factor, the reciprocal of the total, so that proportions are preserved and the result sums to one. When the total is not positive (zero, negative or not a number) it fails with the 'empty' error and leaves the composition exactly as it was.",
 ["inputs"],"every composition, including negative, zero, infinite and NaN entries",
 "Tests normalise one fixed mixture; a component left unscaled, or a mutation before the emptiness test, is invisible unless that component is the one sampled.",
 [C],[("Composition::normalize",C)],obs=["Composition::normalize"])
p("C03","Composition validation gives the right verdict for every total",
 "Validating a composition reports 'empty' exactly when its total is zero (within 1e-10), 'bad sum' when the total is otherwise further than 0.01 from one or is not a number, and success only when the total is within 0.01 of one. Validation never changes the composition.",
 ["inputs"],"every composition; the verdict as a function of the total over all of f64 including NaN and infinities",
 "Tests check three totals; the boundary shape (one-sided comparisons, NaN) is a statement about all totals.",
 [C],[("Composition::check",C)],obs=["Composition::check"])
p("C04","Models accept only valid compositions and map each fraction to its component",
 "Both equations of state accept a composition exactly when validation accepts it, and otherwise return the validation error leaving the model unchanged. After acceptance each of the 21 components contributes with exactly the fraction supplied for it, not with another component's.",
 ["inputs","histories"],"every composition, from every prior state of the model",
 "The tests use one all-components mixture and pinned totals; swapping two slots of equal fraction, or installing fractions before validating them, needs specific inputs to show.",
 [D,G,C],[("Detail::set_composition",D),("Gerg2008::set_composition",G)],obs=["set_composition"])
p("C05","Molar mass is the mole-fraction-weighted sum of the component molar masses",
 "The molar mass computed by either model is the sum over all 21 components of mole fraction times that component's molar mass, for the published molar masses, and computing it is independent of temperature, pressure and density.",
 ["inputs","histories"],"every composition and every prior model state",
 "Tests pin one mixture; the value must be linear in each of the 21 fractions.",
 [D,G],[("Detail::molar_mass",D),("Gerg2008::molar_mass",G)],obs=["molar_mass","mm"])
p("C06","Normalising makes any composition with a positive total acceptable",
 "A composition that was normalised successfully has a total of one, passes validation and is accepted by both models, whatever its total was before (percentages, parts per million, flow rates). The default composition has all 21 fractions zero; it validates as 'empty', and normalising it fails with the 'empty' error and leaves it all zero.",
 ["inputs","histories"],"every composition with a positive total that (like its reciprocal) is finite; the sequence default, normalise, validate, set_composition",
 "Tests normalise one binary mixture; that the chain of operations always ends in an accepted composition is a statement about all totals and all 21 fractions.",
 [C,D,G],[("Composition::normalize",C),("Composition::check",C),("impl Default for Composition",C)],obs=["normalize","check","set_composition"])
p("F01","C API never dereferences a null handle",
 "Every exported C function that takes a model handle refuses a null handle by aborting before it touches the handle, and the two free functions accept a null handle and do nothing.",
 ["inputs"],"every exported function, null and non-null handles",
 "No test calls the C API with null; one missing guard among some thirty functions would never be exercised.",
 [F],[("assert!(!ptr.is_null())",F)],obs=["aga8_*","gerg_*"])
p("F02","C API handles are created once and released exactly once",
 "Creating a handle through the C API yields a fresh heap-allocated model owned by the caller, the matching free function releases exactly that model with the type it was created with, and no other exported function releases, replaces or leaks it.",
 ["histories","inputs"],"every sequence of C API calls",
 "Leaks, double frees or releasing with the wrong type cannot be seen by value-checking tests.",
 [F],[("aga8_new/aga8_free",F),("gerg_new/gerg_free",F)],obs=["aga8_new","aga8_free","gerg_new","gerg_free"])
p("F03","C API calls are transparent wrappers of the Rust models",
 "Each exported C function has exactly the effect and result of the corresponding Rust operation on the handle's model: setters store the given pressure, temperature or density and nothing else, getters return it, calculations perform the same calculation, and the property record returns each quantity under its own name.",
 ["inputs","histories"],"every exported function, every model state and argument",
 "Tests touch few of the exported functions, and the property record has 15 same-typed fields that can be transposed without a type error.",
 [F,D,G],[("ffi::detail",F),("ffi::gerg2008",F)],obs=["aga8_*","gerg_*"])
p("F04","C API error statuses are always written and always truthful",
 "Every exported function with a status out-parameter writes it on every return, with the code of the error the Rust operation produced and with the success code exactly when the operation succeeded.",
 ["inputs","histories"],"every outcome of set_composition and calculate_density through the C API",
 "The failure outcomes are barely exercised; a stale or always-success status needs a failing input.",
 [F],[("aga8_set_composition/aga8_calculate_density",F),("gerg_set_composition/gerg_calculate_density",F)],obs=["error out-parameters"])
p("F05","C API binary interface is stable and C-compatible",
 "All exported functions are unmangled C-ABI symbols with the documented names and argument types; records that cross the boundary have C layout with the documented field order, and status enumerations have C layout with the documented numbering in which zero means success.",
 ["programs"],"every C caller compiled against the documented interface",
 "Rust tests call through Rust types and would be recompiled together with any layout change, so they can never notice it.",
 [F,C,L],[("#[repr(C)], extern \"C\", #[no_mangle]",F)],obs=["exported symbols"])
p("S01","No input can make a calculation panic",
 "No public operation of the library, on either model or on compositions, can panic, index out of bounds, overflow an integer, or unwrap a missing value for any composition, temperature, pressure or density, including zero, negative, infinite and NaN values. The only aborts are the C API's null-handle checks.",
 ["inputs","histories"],"every public operation with every argument from every reachable state",
 "The tests run one hundred thousand random in-range densities for one model; absence of panics is a statement over all inputs and branches.",
 [D,G,C,F],[("constant-bounded indexing, no unwrap/expect",D)],obs=["all public functions"])
p("S02","Every calculation finishes within a fixed amount of work",
 "Every public operation terminates for every input after a number of steps bounded by a constant: all loops have constant bounds, there is no recursion, and the density searches evaluate the pressure a fixed maximum number of times (20 trials for DETAIL, 50 for GERG-2008).",
 ["inputs","histories"],"every public operation with every argument",
 "Non-termination or run-away iteration for rare inputs cannot be ruled out by sampling.",
 [D,G],[("for it in 1..=20 / 1..=50",D)],obs=["density"])
p("S03","Models are isolated, pure values",
 "Calculations perform no input/output, use no global, thread-local or shared state, and leave no memory allocated behind except the C API's handles, so distinct model instances never influence each other and a model may be used from any thread. Memory-unsafe operations occur only in the C API layer.",
 ["schedules","histories"],"every interleaving of operations on distinct instances",
 "Cross-instance or cross-thread influence needs specific interleavings that single-threaded unit tests never create.",
 [D,G,C,F,L],[("all state in the model structs; no statics",D)],obs=["all public functions"])
p("S04","Every way of constructing a model yields a usable model",
 "Every public constructor of either model, including the default value, produces the same fully initialised model, whose calculations give the correct results without any further set-up call.",
 ["programs"],"every public way of obtaining a model instance",
 "Tests always go through one constructor.",
 [D,G],[("Detail::new / Detail::default",D),("Gerg2008::new / Gerg2008::default",G)],obs=["new","default"])
p("S05","Results are finite numbers over the whole physical range",
 "For every valid composition of non-negative fractions, temperatures of 50 to 2000 K and densities of 0 to 50 mol/l, the molar mass, pressure, compressibility factor, internal energy, enthalpy, entropy, Gibbs energy, isochoric heat capacity and the pressure derivatives computed by both models are finite: no division by zero, overflow, logarithm of zero or root of a negative number occurs on the way to them, also at special states such as a reduced temperature or density of exactly one.",
 ["inputs"],"every composition whose fractions are each zero or at least 1e-14 and total one, every temperature from 50 to 2000 K, density zero or from 1e-9 to 50 mol/l",
 "Singular points of a formula (a difference that happens to vanish, an exponential that overflows, an absent component) are isolated in a 23-dimensional range and never hit by sampled states.",
 [D,G],[("alphar, alpha0, x_terms, reducing parameters",G),("x_terms, b terms, properties",D)],obs=["properties","pressure","molar_mass"])
p("H01","DETAIL results depend only on current inputs, not on earlier calls",
 "For the DETAIL model, the results of every calculation are a function only of the current composition, temperature, and pressure or density; no earlier composition, temperature, density, calculation or its order can change them, however small the change of inputs was.",
 ["histories","inputs"],"every sequence of public operations before a calculation, with compositions whose fractions are numbers (not NaN), at least one of them nonzero, and temperatures other than zero throughout",
 "Caches keyed on composition and temperature are reused across calls; tests run short fixed call sequences.",
 [D],[("x_terms cache on xold",D),("alphar cache on told",D)],state=[dict(name="xold,ki25,ei25,bs,csn,k3",meaning="composition-keyed cache",where=D),dict(name="told,tun",meaning="temperature-keyed cache",where=D)],obs=["pressure","density","properties"])
p("H02","GERG-2008 results depend only on current inputs, not on earlier calls",
 "For the GERG-2008 model, the results of every calculation are a function only of the current composition, temperature, and pressure or density (and the density search option); no earlier composition, temperature, density, calculation or its order can change them, however small the change of inputs was.",
 ["histories","inputs"],"every sequence of public operations before a calculation, with compositions whose fractions are numbers (not NaN), at least one of them nonzero, and temperatures other than zero throughout",
 "Caches keyed on composition, temperature and reducing temperature are reused across calls; tests run short fixed call sequences.",
 [G],[("reducingparameters cache on xold",G),("tterms cache on told/trold",G),("pseudocritical cache on x",G)],state=[dict(name="xold,drold,trold,dcx,tcx",meaning="composition-keyed cache",where=G),dict(name="told,trold2,taup,taupijk",meaning="temperature-keyed cache",where=G)],obs=["pressure","density","properties"])
p("R01","DETAIL density search reports success only for a converged root",
 "The DETAIL density search returns success only when its last trial, evaluated at the returned temperature and composition, met the convergence criterion with a usable positive slope and trial pressure, and then returns that converged density; (relative difference of trial and requested pressure over the slope below 1e-7); if it does not converge within 20 trials it reports an iteration failure with the ideal-gas density, and for a pressure of (numerically) zero it reports 'pressure too low' with density zero. Apart from density and the outputs of the pressure evaluation it changes nothing. A negative stored density serves (negated) as the starting guess; otherwise (zero, positive, or the NaN an earlier failure may have left) the search starts from the ideal-gas density.",
 ["inputs","histories"],"every pressure, temperature, composition and starting density",
 "Tests pin converged states; the failure exits and the acceptance condition must hold for all inputs.",
 [D],[("Detail::density",D)],obs=["density","d","DensityError"])
p("R02","GERG-2008 density search reports success only for a converged root",
 "The GERG-2008 density search returns success only when its last trial met the convergence criterion with a usable positive slope and trial pressure (and, when requested, the root passed the consistency tests on the speed of sound, heat capacities and slopes), and then returns that converged density; otherwise, after at most 50 trials, it reports an iteration failure with the ideal-gas density, or 'pressure too low' with density zero for a pressure of (numerically) zero. The convergence criterion is a relative difference of trial and requested pressure over the slope below 1e-7. The phase option only selects the starting guess and the extra tests.",
 ["inputs","histories"],"every pressure, temperature, composition, starting density and option",
 "Tests pin converged states with one option value; the failure exits and the acceptance condition must hold for all inputs.",
 [G],[("Gerg2008::density",G)],obs=["density","d","DensityError"])
p("R03","DETAIL density search takes exact Newton steps within its range",
 "The DETAIL density search starts from the ideal-gas density, or from the magnitude of a negative stored density. From a trial with positive slope and pressure (not below 1e-15) it goes to the next trial by exactly one Newton step for the logarithm of the pressure against the logarithm of the molar volume, and from any other trial (whose slope and pressure are numbers) by multiplying the density by exp(-0.1). It never evaluates a density outside exp(-100) to exp(7) mol/l, and gives up only when a step leaves that range or after 20 trials.",
 ["inputs","schedules"],"every trial of the search, for every pressure, temperature, composition, starting density and every behaviour of the pressure evaluation",
 "A wrong step only slows the search down or sends it to another root in rare states; the sampled states still converge to the same value.",
 [D],[("Detail::density",D)],obs=["density","d"])
p("R04","GERG-2008 density search takes exact Newton steps and restarts in order",
 "The GERG-2008 density search starts from the ideal-gas density, from three times the pseudo-critical density (the reciprocal of the sum of fraction over critical density) when the liquid option 2 is given, or from the magnitude of a negative stored density. From a trial with positive slope and pressure (not below 1e-15) it takes exactly one Newton step for the logarithm of pressure against the logarithm of molar volume; from any other trial (whose slope and pressure are numbers) it changes the logarithm of the density by 0.1 (0.05 after trial 5, 0.01 in trials 11 to 19), upwards when the density is above the pseudo-critical density and downwards otherwise. At trials 20, 30 and 40, and whenever a step leaves the range exp(-100) to exp(7) mol/l, it restarts at 3, then 2.5, then 2 times the pseudo-critical density; it gives up only when a fourth restart would be needed, after 50 trials, or when a converged root fails the requested consistency tests. Apart from restarts it never evaluates a density outside that range.",
 ["inputs","schedules"],"every trial of the search, for every pressure, temperature, composition, starting density, option and every behaviour of the pressure evaluation",
 "Restarts and unusable trials happen only near or inside the two-phase region; the sampled states converge from the first guess.",
 [G],[("Gerg2008::density",G),("Gerg2008::pseudocriticalpoint",G)],obs=["density","d"])
p("R05","Meaningless temperatures and pressures never pass as a converged search",
 "Neither density search reports success when the pressure or the temperature is not a number, infinite, zero or negative, whatever the stored density, the search option and the earlier calculations were. (Other temperatures and pressures can succeed.)",
 ["inputs","histories"],"every pressure or temperature that is NaN, infinite, zero or negative; every composition of non-negative fractions that validation accepts; every stored density and option",
 "Tests only search at meaningful states. Whether NaN and infinities survive the whole chain of powers, exponentials, sums and comparisons is a statement about every composition and every path of the search.",
 [D,G],[("Detail::density",D),("Gerg2008::density",G),("Detail::pressure",D),("Gerg2008::pressure",G)],obs=["density","DensityError"])
p("T01","DETAIL properties are mutually consistent derivatives of one energy",
 "All properties reported by the DETAIL model at a state derive from a single Helmholtz energy: pressure, entropy, internal energy, enthalpy, Gibbs energy, heat capacities, speed of sound, Joule-Thomson coefficient, isentropic exponent and the reported pressure derivatives satisfy the exact thermodynamic identities linking them, for every composition, temperature and density. (The mixed second derivative d2p_dtd is not one of them: DETAIL does not compute it and reports zero.)",
 ["inputs"],"every composition, temperature and density",
 "Tests compare single numbers at a couple of states; consistency is an identity in temperature, density and 21 fractions.",
 [D],[("alpha0_detail, alphar, properties",D)],obs=["properties"])
p("T02","GERG-2008 properties are mutually consistent derivatives of one energy",
 "All properties reported by the GERG-2008 model at a state derive from a single Helmholtz energy: pressure, entropy, internal energy, enthalpy, Gibbs energy, heat capacities, speed of sound, Joule-Thomson coefficient, isentropic exponent and the reported pressure derivatives satisfy the exact thermodynamic identities linking them, for every composition, temperature and density.",
 ["inputs"],"every composition, temperature and density",
 "Tests compare single numbers at a couple of states; consistency is an identity in temperature, density and 21 fractions.",
 [G],[("alpha0, alphar, properties",G)],obs=["properties"])
p("T03","Both models reduce exactly to the ideal gas at zero density",
 "As density goes to zero both models reduce to the ideal gas: at density zero the compressibility factor is exactly one and pressure zero, the slope of pressure with density is the gas constant times temperature, and the residual contribution to energy, entropy and heat capacity vanishes, for every composition and temperature.",
 ["inputs"],"every composition and temperature at density zero (and the zero-density branches)",
 "No test evaluates the zero-density branches of properties.",
 [D,G],[("zero-density branches",D)],obs=["pressure","properties"])
p("T04","Speed of sound is never reported negative or as NaN of a negative square",
 "The reported speed of sound is never negative: when its square would be negative the models report zero.",
 ["inputs"],"every composition, temperature and density, including unstable states",
 "Tests only evaluate stable states with positive squares.",
 [D,G],[("w guard",D)],obs=["properties"])
p("T05","Calculations never alter their inputs, and pressure agrees between operations",
 "Calculating pressure or properties never changes the stored composition, temperature or density, and the density search never changes composition, temperature or pressure. The pressure calculation and the property calculation give the same pressure, compressibility factor and density slope for the same state.",
 ["inputs","histories"],"every state and every calculation",
 "Tests look at outputs only, after one calculation.",
 [D,G],[("pressure/properties/density",D)],obs=["pressure","properties","density"])
p("E01","DETAIL implements the published AGA 8 Part 1 equation",
 "The Helmholtz energy evaluated by the DETAIL model is the published AGA 8 Part 1 equation for all 21 components: the published functional form, mixing rules, interaction parameters, coefficients, exponents and ideal-gas terms.",
 ["inputs"],"every composition, temperature and density; every table entry",
 "The tests pin one mixture; entries that matter little there (or act through tiny terms) are not constrained.",
 [D],[("x_terms, alphar, alpha0_detail, setup and tables",D)],obs=["pressure","properties"])
p("E02","GERG-2008 implements the published GERG-2008 equation",
 "The Helmholtz energy evaluated by the GERG-2008 model is the published GERG-2008 equation for all 21 components: the published functional form, mixing rules, reducing functions, binary departure functions, coefficients, exponents and ideal-gas terms.",
 ["inputs"],"every composition, temperature and density; every table entry",
 "The tests pin one mixture; entries that matter little there (or act through tiny terms) are not constrained.",
 [G],[("reducingparameters, alphar, alpha0, setup and tables",G)],obs=["pressure","properties"])
p("E03","Absent components contribute nothing",
 "A component whose mole fraction is zero has no influence on any result: no result depends on that component's parameters, and no logarithm of zero or division by its fraction is evaluated.",
 ["inputs"],"every composition with one or more zero fractions",
 "The pinned mixture contains all 21 components, so the zero-fraction branches are hardly exercised.",
 [D,G],[("x[i] > EPSILON guards",D)],obs=["pressure","properties","density"])
p("N01","The density search converges for every physical single-phase state",
 "For every physically meaningful composition, temperature and pressure the density searches converge and return the density of the stable phase.",
 ["inputs"],"every state in the equations' range of validity","Tests sample 100,000 random densities of one mixture.",
 [D,G],[("density",D)],obs=["density"])
p("N02","Pressure of the density of a pressure is that pressure",
 "When the density search succeeds, evaluating the pressure at the returned density reproduces the requested pressure to within the stated tolerance.",
 ["inputs"],"every successful search","Tests sample a few states.",
 [D,G],[("density/pressure",D)],obs=["density","pressure"])
p("N03","Results agree with measured gas properties within the stated uncertainty",
 "Calculated compressibility factors and properties agree with reference data within the uncertainty stated by the standards.",
 ["inputs"],"the range of validity of the standards","Tests pin reference values of one mixture.",
 [D,G],[("whole model",D)],obs=["properties"])
p("N04","Floating-point results are accurate to near machine precision",
 "Rounding in the evaluation of the equations stays within a small multiple of machine precision of the exact value of the published equation.",
 ["inputs"],"all states in range","Tests compare to 1e-10 at single states.",
 [D,G],[("whole model",D)],obs=["properties"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
