"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
B = "safe_autonomy_dynamics/"
BM, DU, INT, UT = B + "base_models.py", B + "dubins.py", B + "integrators.py", B + "utils.py"
PT, RO, SX, SUN = (B + "cwh/" + f for f in ("point_model.py", "rotational_model.py", "sixdof_model.py", "sun_model.py"))
AB = B + "external/aerobench/"
LL = AB + "lowlevel/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


p("C01", "Applied control is the request clipped per actuator, warning iff clipped",
  "In every entity step the dynamics receive exactly the requested control with each component clipped to that actuator's own "
  "minimum and maximum, whatever container (list, array, JAX array, dict) the request came in. "
  "A warning is issued if and only if at least one component was outside its limits. The caller's request and the configured limits are not modified.",
  ["inputs", "configurations"], "all control vectors, scalar or per-actuator limits, every action container, every entity class",
  "Tests step with a handful of constant controls and never assert on the warning or on per-actuator clipping of mixed vectors.",
  [BM, DU, PT, RO, SX, INT], [("control clipping", BM + " BaseEntity.step")], ["control passed to the dynamics step", "warnings issued"])
p("C02", "Named actions drive exactly their own actuator; bad actions change nothing",
  "A dictionary action sets exactly the named actuators to the given values and leaves every other actuator at its default; no action means the default control. "
  "Each actuator name of each entity drives its own control channel (as listed in the entity's documented control order). "
  "An unknown name raises KeyError and an unsupported action type raises ValueError, and then the entity's state, derivative and defaults are unchanged.",
  ["inputs", "configurations", "histories"], "all subsets and orders of actuator names, all values, all entity classes, repeated steps",
  "Tests use one or two fixed dictionaries per entity, never partial ones after other actions, and never check integrators.",
  [BM, DU, PT, RO, SX, INT], [("action unpacking", BM + " BaseEntity.step"), ("control_map of each entity", DU + ", " + PT + ", " + RO + ", " + SX + ", " + INT)],
  ["control passed to the dynamics step", "exceptions", "entity state"])
p("C03", "State limits hold after every step",
  "After every step each state component lies within its configured minimum and maximum (scalar limits apply to all components, array limits elementwise), whatever the integrator produced, "
  "and components the integrator left inside their limits are not altered by limiting. "
  "For the aircraft this bounds speed, flight path angle and roll, and for the rotating spacecraft the body rates, at the configured values.",
  ["inputs", "configurations"], "all states, controls, limits and integrator outputs; all entities; numpy and JAX variants",
  "Tests reach limits with a few trajectories; limiting must hold for every integrator output.",
  [BM, DU, RO, SX], [("clip after integration", BM + " BaseDynamics.step")], ["returned next state", "entity.state"])
p("C04", "Angle wrapping preserves the angle and lands in the configured range",
  "A wrapped state component after a step lies in [center-pi, center+pi] and differs from the integrator's value by an integer multiple of 2*pi, for any center. "
  "Components without a center are untouched. Aircraft heading, flight path angle and roll and the planar spacecraft attitude are wrapped about zero; nothing else is.",
  ["inputs", "configurations"], "all angles (many turns), all centers, any mixture of wrapped and unwrapped components",
  "Tests never use a nonzero center and only cross the branch cut a few times.",
  [BM, DU, RO], [("modular wrap", BM + " BaseDynamics._wrap_angles")], ["returned next state"])
p("C05", "State derivatives are limited, directly and at the state limits",
  "The derivative that is integrated and reported equals the model derivative clipped elementwise to the configured derivative limits, and is never negative for a component at or below its minimum nor positive for one at or above its maximum. "
  "Components away from their limits keep the clipped model derivative exactly. This holds identically for every integration method.",
  ["inputs", "configurations"], "all model derivatives, states below/at/inside/above limits, limits scalar or array, all integration methods",
  "Tests never set derivative limits, and reach saturated states only through a few trajectories.",
  [BM], [("derivative clipping", BM + " BaseODESolverDynamics.compute_state_dot"), ("JAX right-hand side", BM + " compute_state_dot_jax")],
  ["compute_state_dot", "right-hand side handed to the integrator", "state_dot"])
p("C06", "A step integrates the model over exactly the requested duration",
  "One step integrates the limited derivative, with the applied control held constant, from the current state over exactly the requested duration starting at time zero, and returns the state at the end of that interval "
  "together with the derivative at the end of the step. With the Euler method this is exactly state + duration * derivative. "
  "A failed integration or an invalid method or option raises an error instead of returning a state.",
  ["inputs", "configurations", "fault_sequences"], "all durations, states, controls, integration methods, solver outcomes (including failure)",
  "Tests only use RK45 with fixed step sizes and successful integrations; Euler and JAX integration are never run.",
  [BM], [("integration dispatch", BM + " BaseODESolverDynamics._step")], ["interface to the ODE solver", "returned state and derivative"])
p("C07", "Trajectory samples are equally spaced, end at the step end, and are inert",
  "With N trajectory samples requested, a step stores exactly N sample times equally spaced over the step, the last being the step end, and the integrator's states at exactly those times. "
  "The last stored sample is the state the step integrated to. Requesting samples does not change the resulting state or derivative.",
  ["inputs", "configurations"], "all step sizes, states and controls; sample counts up to a bound",
  "No existing test requests trajectory samples.",
  [BM], [("sample times", BM + " BaseODESolverDynamics._step")], ["dynamics.trajectory", "dynamics.trajectory_t"])
p("C08", "Stepping depends only on current state and control",
  "The result of a step depends only on the entity's parameters, its current state, the step size and the action: not on earlier steps, earlier actions, read-outs taken in between, or other entities. "
  "An entity whose state is set to a given vector steps exactly like a fresh entity with that state. Two entities never influence each other.",
  ["histories", "inputs"], "all histories up to a bounded number of steps with arbitrary actions, states and interleavings of two entities",
  "Tests compare single trajectories, never one history against another.",
  [BM, DU, PT, RO, SX, INT, SUN], [("no hidden state in step", BM + " BaseEntity.step"), ("module defaults are never mutated", SX + " " + RO)],
  ["entity.state", "entity.state_dot"])
p("C09", "State, controls and matrices are never shared by reference",
  "Mutating an array obtained from an entity's state or position/velocity read-outs, an array assigned as its state, an array passed as its action, or matrices passed to build its model never changes the entity, its defaults or its model. "
  "Likewise stepping never modifies arrays the caller holds.",
  ["inputs", "histories"], "all entities, all mutated components and values",
  "Tests never mutate what they get or pass.",
  [BM, PT, RO, SX, DU, INT], [("copies", BM + " BaseEntity.state, BaseEntity.step, BaseLinearODESolverDynamics.__init__")], ["entity.state", "later steps"])
p("C10", "Control-affine and linear models compute f(x)+g(x)u and Ax+Bu",
  "A control-affine model's derivative is its drift at the current state plus its input matrix at the current state times the control; a linear model's is A x + B u with the matrices it was given. "
  "Matrices that are not two-dimensional, not square, or of mismatching size are rejected at construction.",
  ["inputs", "configurations"], "all A, B, x, u up to 4 states and 3 inputs; numpy and JAX variants; user-defined f and g",
  "Only the built-in matrices are exercised by tests.",
  [BM], [("affine right-hand side", BM + " BaseControlAffineODESolverDynamics, BaseLinearODESolverDynamics")], ["compute_state_dot"])
p("C11", "The point-mass spacecraft obeys the Clohessy-Wiltshire equations",
  "For every mass m>0, mean motion n, state and thrust, the derivative is (v, 3n^2 x + 2n y' + Fx/m, -2n x' + Fy/m, -n^2 z + Fz/m). "
  "The generated planar matrices are the in-plane part of the three-dimensional ones.",
  ["inputs", "configurations"], "all m>0, n, states and thrusts", "Tests check a few states with default m and n.",
  [PT], [("CWH matrices", PT + " generate_cwh_matrices")], ["compute_state_dot", "generated A, B"])
p("C12", "The planar rotating spacecraft obeys CWH plus rigid rotation about z",
  "For every attitude the translational derivative is the planar Clohessy-Wiltshire one with the body-frame thrust rotated by the attitude angle into Hill's frame, the attitude rate is the angular velocity and the angular acceleration is moment/inertia. "
  "This holds for numpy and JAX variants and any mass, inertia and mean motion.",
  ["inputs", "configurations"], "all states, controls, m, inertia, n inside the configured rate limits", "The stable tests never run this model at all.",
  [RO], [("planar dynamics", RO + " CWHRotation2dDynamics")], ["compute_state_dot"])
p("C13", "Six-DOF translation obeys CWH with body- or Hill-frame thrust",
  "For every unit quaternion, state, mass and mean motion the translational derivative is the Clohessy-Wiltshire one with thrust rotated from the body to Hill's frame by the attitude (or used directly when Hill-frame thrust is selected). "
  "The rotation preserves thrust magnitude, and agrees with the entity's reported orientation.",
  ["inputs", "configurations"], "all unit quaternions, states, thrusts, m, n, both thrust frames", "Tests sample a few attitudes and always the default frame.",
  [SX], [("six-dof dynamics", SX + " SixDOFDynamics")], ["compute_state_dot", "orientation"])
p("C14", "Six-DOF attitude obeys quaternion kinematics and Euler's equations",
  "The quaternion derivative is half the quaternion product of attitude and body rate, so the quaternion norm is conserved; the angular acceleration is Euler's rigid-body equation with the diagonal inertia and applied moment. "
  "Hence without moment rotational energy and angular momentum magnitude are conserved.",
  ["inputs", "configurations"], "all quaternions, body rates inside the limits, moments and principal inertias", "Tests sample a few rates with equal principal inertias, for which the gyroscopic terms vanish.",
  [SX], [("rotational derivatives", SX + " SixDOFDynamics")], ["compute_state_dot"])
p("C15", "The spacecraft models agree where they describe the same motion",
  "With zero in-plane rotation the planar rotating model, the point-mass model and the six-DOF model give the same translational derivative; with rotation about z only, planar and six-DOF models give the same translation and angular acceleration.",
  ["inputs", "configurations"], "all in-plane states, thrusts, z-attitudes, m, n", "No test compares models with each other.",
  [PT, RO, SX], [("shared CWH matrices", PT + " generate_cwh_matrices")], ["compute_state_dot"])
p("C16", "Torque and rate limits follow from spacecraft and wheel limits",
  "The maximum moment of a rotating spacecraft is its inertia times the smaller of its angular acceleration limit and what the wheel can provide, and its rate limit the smaller of its angular velocity limit and what the wheel can absorb, per axis and symmetric. "
  "The control-induced angular acceleration and the body rate never exceed these limits. Thrust limits are those configured, symmetric about zero.",
  ["inputs", "configurations"], "all positive inertias, wheel inertias, limits, per axis", "Tests only use default limits and equal inertias.",
  [RO, SX], [("limit derivation", RO + " CWHRotation2dSpacecraft.__init__, " + SX + " SixDOFSpacecraft.__init__")], ["applied control", "derivative", "state"])
p("C17", "The 2D aircraft obeys Dubins kinematics",
  "The derivative is (v cos heading, v sin heading, heading rate, acceleration), with acceleration not leaving the speed limits.",
  ["inputs"], "all headings, speeds and controls", "Tests sample a few headings.", [DU], [("2d dynamics", DU + " Dubins2dDynamics")], ["compute_state_dot"])
p("C18", "The 3D aircraft obeys coordinated-turn Dubins kinematics",
  "The derivative is (v cos heading cos gamma, v sin heading cos gamma, -v sin gamma, (g/v) tan roll, gamma rate, roll rate, acceleration), with gamma, roll and speed not leaving their limits. "
  "Ground-relative speed equals v.", ["inputs", "configurations"], "all headings, gammas, rolls, speeds, controls and g", "Tests sample a few attitudes.",
  [DU], [("3d dynamics", DU + " Dubins3dDynamics")], ["compute_state_dot"])
p("C19", "Aircraft read-outs are mutually consistent",
  "Position, velocity, acceleration, heading, flight path angle, roll, yaw, pitch, speed and orientation all describe the same state: velocity has magnitude v and points along the nose given by orientation, acceleration is the rate of change of speed along velocity, yaw is heading and pitch is gamma. "
  "Read-only or settable components change exactly the component they name.", ["inputs", "histories"], "all states and derivatives",
  "Tests compare a few values.", [DU], [("read-outs", DU + " BaseDubinsAircraft and subclasses")], ["properties"])
p("C20", "Spacecraft read-outs are mutually consistent",
  "Every position, velocity, attitude and rate read-out returns the state component it names, vectors agree with their components, and the orientation, quaternion and attitude angle describe the same rotation. "
  "Quantities a model does not have are zero (or identity), and vectors are three-dimensional.", ["inputs"], "all states, including after steps and state assignment",
  "Tests compare a few values.", [PT, RO, SX], [("read-outs", PT + ", " + RO + ", " + SX)], ["properties"])
p("C21", "Construction converts units, places every value, and rejects bad input",
  "An initial value given in any compatible unit produces exactly the converted magnitude in the right state component, a plain number is taken in the entity's own units, and omitted values take documented defaults giving a valid attitude. "
  "A value of the wrong dimension, an unknown parameter or a missing name is rejected.", ["inputs", "configurations"], "all values and a family of units per parameter; all entities",
  "Tests use a few unit/value pairs.", [BM, DU, PT, RO, SX, INT, SUN], [("unit validators", BM + " build_unit_conversion_validator_fn"), ("state building", "_build_state of each entity")],
  ["entity.state", "exceptions"])
p("C22", "Unit-carrying read-outs equal plain read-outs in declared units",
  "Each read-out that carries units has exactly the magnitude of the plain read-out of the same quantity and that entity's documented unit (feet or metres, radians, seconds and their combinations).",
  ["inputs", "configurations"], "all states, all entities", "Tests check a few of them with single values.", [BM, DU, PT, RO, SX],
  [("unit read-outs", BM + " BaseEntity, BaseRotationEntity"), ("base units", "base_units of each entity")], ["*_with_units properties"])
p("C23", "Integrator entities are damped point masses in 1, 2 and 3 dimensions",
  "For every mass and damping the derivative of position is velocity and of velocity is -damping*velocity + thrust/m, axis by axis, with each named thrust acting on its own axis and clipped to [-1, 1]. Read-outs return the named component.",
  ["inputs", "configurations"], "all masses, dampings, states, thrusts and dimensions", "No test instantiates an integrator.", [INT],
  [("integrator matrices", INT + " generate_dynamics_matrices")], ["compute_state_dot", "properties"])
p("C24", "The sun rotates at the mean motion",
  "The sun's angle derivative is the configured mean motion, independent of angle and control, so one step advances the angle by mean motion times duration (exactly with Euler).",
  ["inputs", "configurations"], "all n, angles, durations", "Tests cover at most one value.", [SUN], [("sun dynamics", SUN + " SunDynamics")], ["compute_state_dot", "theta"])
p("C25", "Entity equality means same kind and same physical state",
  "Two entities of the same class compare equal exactly when their physical state (position, velocity, attitude, rates; for aircraft also acceleration) is equal, equality is symmetric and reflexive, and entities never equal an entity of an unrelated class or a foreign object.",
  ["inputs"], "all pairs of states", "Tests compare a few pairs.", [DU, PT, RO, SX, INT, SUN], [("__eq__", "each entity class")], ["== between entities"])
p("C26", "Relative position and velocity are other minus own",
  "An entity's relative position and velocity to a named entity of its simulation are that entity's position and velocity minus its own, for the entity with that name at that time.",
  ["inputs", "histories"], "all states of both entities, any name", "Tests use a few pairs.", [PT, RO, SX], [("relative read-outs", "entity_relative_position, entity_relative_velocity")], ["return values"])
p("C27", "Per-axis limits accept a number, a list or an array equivalently",
  "A per-axis configuration value given as one number, as a list or as an array of the right length means the same limits as the equivalent array; a wrong length, type or element type is rejected rather than misread.",
  ["inputs", "configurations"], "all values, lengths 1 to 4, containers", "No test passes a list.", [UT, SX], [("number_list_to_np", UT)], ["resulting array / limits"])
p("C28", "F-16 aerodynamic tables interpolate the published data",
  "Every tabulated aerodynamic coefficient is, over the published angle and deflection range, the (bi)linear interpolation of the published F-16 table with the published symmetry in sideslip; in particular it hits the table value at every breakpoint and is continuous across breakpoints.",
  ["inputs"], "all angles of attack in [-10,45] deg, sideslips in [-30,30] deg, elevator in [-24,24] deg", "No test evaluates the tables.",
  [LL + f for f in ("cx.py", "cy.py", "cz.py", "cl.py", "cm.py", "cn.py", "dlda.py", "dldr.py", "dnda.py", "dndr.py", "dampp.py")],
  [("table lookup", LL + "*.py"), ("rounding helpers", AB + "util.py fix, sign")], ["return values"])
p("C29", "Engine thrust interpolates the published map",
  "Thrust over the published altitude, Mach and power range is the bilinear interpolation of the published idle, military and maximum thrust maps, blended linearly in power, and continuous in power, altitude and Mach.",
  ["inputs"], "altitude 0..50000 ft, Mach 0..1, power 0..100", "No test evaluates it.", [LL + "thrust.py"], [("thrust lookup", LL + "thrust.py")], ["return value"])
p("C30", "Throttle gearing and engine lag follow the published engine model",
  "Commanded power is the published piecewise-linear function of throttle, the inverse lag time constant the published function of power difference, and the power rate drives power towards the command (never away from its target), switching at 50% power as published.",
  ["inputs"], "all throttles, powers and commands", "No test evaluates it.", [LL + "tgear.py", LL + "rtau.py", LL + "pdot.py"], [("engine lag", LL + "pdot.py, rtau.py, tgear.py")], ["return values"])
p("C31", "Air data follow the published atmosphere",
  "Dynamic pressure is half density times speed squared and Mach number is speed over the speed of sound, with the published standard-atmosphere density and temperature, for every altitude and speed in the envelope.",
  ["inputs"], "altitude -1000..100000 ft, all speeds", "No test evaluates it.", [LL + "adc.py"], [("air data", LL + "adc.py")], ["return values"])
p("C32", "F-16 forces, moments and outputs follow the published six-DOF model",
  "For either aerodynamic model the full 13-state derivative, load factors and accelerations are the published rigid-body equations of the F-16 with the published constants, applied to the aerodynamic coefficients, thrust and air data at the current state and controls. The caller's state is not modified.",
  ["inputs", "configurations"], "all states in the flight envelope, all controls, both aerodynamic models, with and without side-acceleration adjustment; lookups as arbitrary functions",
  "No test evaluates it.", [LL + "subf16_model.py"], [("equations of motion", LL + "subf16_model.py")], ["returned derivative and accelerations"])
p("C33", "F-16 kinematics conserve what physics conserves",
  "The Earth-frame speed of the F-16 derivative equals airspeed, the Euler-angle rates reproduce the body rates, and airspeed changes only through force along the velocity (gravity, thrust, drag), for every attitude and whatever the aerodynamic coefficients are.",
  ["inputs"], "all attitudes away from vertical, all rates", "No test evaluates it.", [LL + "subf16_model.py"], [("navigation and kinematic equations", LL + "subf16_model.py")], ["returned derivative"])
p("C34", "The polynomial aerodynamic model is the published one, saturated",
  "The polynomial aerodynamic coefficients are the published global polynomials in angle of attack, sideslip, deflections and nondimensional rates, with each argument saturated at its published bound.",
  ["inputs"], "all arguments, inside and outside the bounds", "No test evaluates it.", [LL + "morellif16.py"], [("polynomials", LL + "morellif16.py")], ["return values"])
p("C35", "The low-level controller is saturated LQR feedback about trim",
  "Commanded throttle, elevator, aileron and rudder are the published gains applied to the deviation from trim plus trim controls (throttle directly from the reference), each saturated at its own limits; integrator derivatives are achieved minus commanded load factor, roll rate and side term. The aircraft state, reference and trim values are not modified.",
  ["inputs", "histories"], "all states, references; repeated calls", "No test evaluates it.", [LL + "low_level_controller.py"], [("controller", LL + "low_level_controller.py")], ["return values"])
p("C36", "Closed-loop F-16 wiring connects model, controller and integrators",
  "The closed-loop derivative is the aircraft derivative under the controller's saturated command, followed by the integrator derivatives for the achieved load factor, stability-axis roll rate and side term (in either integrator formulation); reported controls are in radians with throttle and references unchanged.",
  ["inputs", "configurations"], "all states, references, both models and formulations; model and lookups as arbitrary functions", "No test evaluates it.",
  [AB + "controlled_f16.py"], [("closed loop", AB + "controlled_f16.py")], ["return values"])
p("C37", "Trim constraints and cost match the selected flight condition",
  "Trim constraints set attitude, rates and engine power as specified for level flight, climb, coordinated turn or pull-up, and the trim cost is the published weighted sum of squares for that condition of the resulting derivative, so it is zero exactly when the condition is trimmed.",
  ["inputs", "configurations"], "all states, controls and constraint values, all four conditions", "No test evaluates it.", [LL + "conf16.py", LL + "clf16.py"],
  [("constraints and cost", LL + "conf16.py, clf16.py")], ["return values", "x and u"])
p("C38", "Fixed-step Euler integration visits every step and lands on the end time",
  "The fixed-step integrator advances by exactly one step of the derivative at the current time and state, shortens the last step to land exactly on the end time, then reports finished and stays there; its dense output interpolates linearly between the last two states. The caller's initial state is not modified.",
  ["inputs", "histories"], "all start/end times, steps and derivatives up to a bounded number of steps", "No test evaluates it.", [AB + "util.py"], [("Euler", AB + "util.py Euler")], ["t, y, status, dense_output"])
p("C39", "The safety verdict is exactly that every configured limit held throughout",
  "Verifying a simulation passes if and only if at every tick every configured limit (altitude, load factor, speed, angle of attack, roll rate, sideslip) is respected by that tick's values; limits not configured are ignored, limits given in degrees are compared in degrees, and results with or without controller integrators are accepted.",
  ["inputs", "histories", "configurations"], "all values over a bounded number of ticks, any subset of limits", "No test evaluates it.", [AB + "util.py"], [("verify", AB + "util.py SafetyLimitsVerifier")], ["AssertionError or none"])
p("C40", "Multi-aircraft results split losslessly; frozen objects reject new fields",
  "Extracting one aircraft from a multi-aircraft result returns exactly its own state columns and list entries and the shared times, status and modes, and the extracts together cover the original. A frozen object accepts updates of existing fields and rejects new ones.",
  ["inputs", "configurations"], "1..3 aircraft, all values", "No test evaluates it.", [AB + "util.py"], [("extract_single_result, Freezable", AB + "util.py")], ["returned result"])
p("C41", "Adaptive integration stays close to the exact solution",
  "The state returned by a step with an adaptive method differs from the exact solution of the differential equation by no more than the method's error tolerance.",
  ["inputs"], "all states, controls and durations", "Tests compare a few trajectories.", [BM], [("scipy/jax adaptive solver", BM + " BaseODESolverDynamics._step")], ["next state"])
p("C42", "The attitude quaternion stays normalised over long simulations",
  "Over any simulation the norm of the six-DOF attitude quaternion stays one up to the integrator's accumulated error.",
  ["histories"], "all histories of any length", "Tests run a few steps.", [SX], [("quaternion kinematics", SX)], ["state"])
p("C43", "NumPy and JAX variants agree to floating-point accuracy",
  "The same entity run with NumPy and with JAX yields states that agree to single-precision accuracy for every integration method.",
  ["inputs", "configurations"], "all states, controls", "Stable tests never run JAX.", [BM, RO], [("np/jnp dispatch", BM)], ["state"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
