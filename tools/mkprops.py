#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long strings stay reviewable)."""
import json, os
K='src/thunder/src/kinematics.cpp'; D='src/thunder/src/dynamics.cpp'; R='src/thunder/src/regressors.cpp'
RB='src/thunder/src/robot.cpp'; U='src/thunder/src/utils.cpp'; FO='src/thunder/src/FrameOffset.cpp'
GY='src/thunder/src/genYaml.cpp'; TM='src/thunder/thunder_main.cpp'
TC='src/thunder/thunder_robot_template/thunder_robot.cpp'; TH='src/thunder/thunder_robot_template/thunder_robot.h'
UD='src/genYAML/src/urdf2dh_inertial.cpp'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':m[0],'where':m[1]} for m in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':s[0],'meaning':s[1],'where':s[2]} for s in state]
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
IC=['inputs','configurations']
TW='The shipped tests only check that numbers are finite/printed for a handful of fixed robots (RRR, seaRRR, R3..R9, all joints revolute) at a few configurations; '
prop('C01','Forward kinematics is the modified-DH product of the configured chain',
 'For every robot description and every joint configuration, the relative transform of joint i is the modified Denavit-Hartenberg transform (order a, alpha, d, theta) of its table row with the joint variable added to theta for revolute and to d for prismatic joints (elastic variants alike), and the absolute transform of frame i is the world offset times the relative transforms 1..i. The end-effector transform appends the end-effector offset, offsets being xyz translations with yaw-pitch-roll (Rz Ry Rx) rotations. Every absolute transform published under an index or under the end-effector name is this product, and an unknown joint type is refused.',
 IC,'all numbers of joints n>=1, all joint-type sequences over {R,P,R_SEA,P_SEA}, all DH tables, offsets and q',
 TW+'nothing compares a transform with the DH definition, no prismatic joint and no non-trivial world/end-effector rotation is compared.',
 [K],[('DHTemplate',K),('get_transform',K),('compute_chain',K)],['get_T_i / get_T_0_i / get_T_0_ee','Robot::get("T_0_...")'])
prop('C02','Jacobians are the exact velocity maps of their frames',
 'For every robot and configuration, the Jacobian of frame i, of the end-effector and of each link centre of mass maps joint rates to the linear velocity (rows 1-3) and angular velocity (rows 4-6) in world coordinates of that frame origin, end-effector point or centre of mass: the linear block is the partial derivative of the point position with respect to q and the angular block is the axis of the rotation derivative. Columns of joints after the frame are zero.',
 IC,'all n, joint-type sequences, DH tables, offsets, inertial parameters and q; every frame index',
 TW+'no test differentiates the kinematics; mixed revolute/prismatic chains and end-effector offsets are never checked.',
 [K,D],[('compute_jacobians',K),('DHJacCM',D),('hat',U)],['get_J_i, get_J_ee, get_J_cm_i'])
prop('C03','End-effector Jacobian derivatives and damped pseudo-inverse are exact',
 'Along any smooth joint trajectory, the published first and second time derivatives of the end-effector Jacobian equal the true derivatives for the given q, dq, ddq. The published pseudo-inverse is the damped right inverse J^T (J J^T + 0.02 I)^-1.',
 IC,'all robots, all q, dq, ddq, including singular configurations for the pseudo-inverse',
 TW+'these functions are only evaluated and printed.',[K],[('compute_kin_adv',K)],['get_J_ee_dot, get_J_ee_ddot, get_J_ee_pinv'])
prop('C04','Mass matrix is the kinetic-energy matrix: symmetric, PSD, complete',
 'For every robot with physically valid links, one half dq^T M dq equals the sum over all links of translational plus rotational kinetic energy of the link (mass, centre of mass and centre-of-mass inertia expressed in the link frame), for every q and dq. Consequently M is symmetric and positive semi-definite.',
 IC,'all n, joint types, kinematic and inertial parameters, q, dq',
 TW+'M is never compared with an energy, and symmetry is not asserted.',[D],[('compute_MCG',D),('createInertialParameters',D),('DHJacCM',D)],['get_M'])
prop('C05','Coriolis matrix: Christoffel form, passivity, classic form agrees',
 'For every robot, q and dq, the Coriolis matrix is built from the Christoffel symbols of the mass matrix, so that C dq gives the Coriolis and centrifugal forces of the Euler-Lagrange equations and dM/dt - 2C is skew-symmetric. The classic formulation published next to it is the same matrix.',
 IC,'all robots, q, dq',TW+'neither skew-symmetry nor agreement of the two formulations is asserted.',
 [D],[('stdCmatrix',D),('stdCmatrix_classic',D),('dq_select',D)],['get_C, get_C_std, get_M_dot'])
prop('C06','Gravity term is the gradient of the potential energy',
 'For every robot, configuration and gravity vector, the gravity term equals the gradient with respect to q of the potential energy -sum_i m_i g^T p_ci(q) over all links, in world coordinates.',
 IC,'all robots, gravity vectors and q',TW+'G is never compared with a potential.',[D],[('compute_MCG',D)],['get_G'])
prop('C07','Published time derivatives of M, C and G are the true derivatives',
 'Along any smooth joint trajectory, the published first and second time derivatives of the mass matrix, of the Coriolis matrix and of the gravity vector equal the true total time derivatives for the given q, dq, ddq (and third derivative of q where it enters).',
 IC,'all robots, all q, dq, ddq, d3q',TW+'derivative functions are only evaluated.',[D],[('compute_dyn_derivatives',D)],['get_M_dot.. get_G_ddot'])
prop('C08','Inertial regressor reproduces the dynamics for every parameter vector',
 'For every robot, q, dq, reference dqr, ddqr, gravity and inertial parameters, the regressor times the regressor-form parameter vector equals M ddqr + C dqr + G, and its mass, Coriolis and gravity parts times the same vector equal M ddqr, C dqr and G separately; the full regressor is the sum of the three parts.',
 IC,'all robots, inertial parameters and q, dq, dqr, ddqr, g',
 TW+'thunder_test prints err_dyn_reg for dq=dqr=ddqr=0 only (gravity), so the mass and Coriolis columns are never constrained.',
 [R,D],[('compute_Yr',R),('createQ/createE',R),('stdCmatrix',D)],['get_Yr, get_reg_M, get_reg_C, get_reg_G'])
prop('C09','Friction and joint-elasticity models follow their polynomial laws',
 'For every polynomial order and every pattern of elastic joints, link friction, coupling damping and motor damping of a joint are the sums over orders k=1..N of parameter_k times |v|^(k-1) v of that joint\'s own (link, coupling or motor) velocity v, and coupling stiffness is the sum over k of parameter_k times the (2k-1)-th power of motor minus link position of that same elastic joint. The per-order coefficient matrices and the motor inertia matrix are diagonal with exactly those parameters.',
 IC,'all n, joint-type sequences (any subset elastic), orders >=0, parameters, q, dq, x, dx',
 TW+'only the all-elastic seaRRR robot is used, values are printed.',[D],[('compute_elastic',D),('compute_Dl',D)],['get_dl, get_k, get_d, get_dm, get_Mm, get_K1...'])
prop('C10','Friction, elastic and kinematic regressors match their quantities',
 'For every robot and every choice of symbolic parameters, the regressors of link friction, stiffness, coupling damping, motor damping and motor inertia have one column per symbolic parameter, in storage order, and that column is the partial derivative of the modelled quantity with respect to that parameter. The kinematic regressors are the partial derivatives of J dq and of J^T w with respect to the symbolic kinematic parameters, in the order DH table, world offset, end-effector offset.',
 IC,'all robots, all symbolic-selection patterns, all states',TW+'these regressors are only evaluated on all-symbolic or no-symbolic patterns and never compared with anything.',
 [R],[('compute_reg_Dl',R),('compute_reg_elastic',R),('compute_reg_J',R)],['get_reg_dl .. get_reg_JTw'])
prop('C11','Dynamic and regressor parameter vectors are mutually inverse conversions',
 'For every link with non-zero mass, converting dynamic parameters (mass, centre of mass, centre-of-mass inertia) yields the regressor form (mass, first moment, inertia about the link origin) by the parallel-axis theorem, and converting back yields the original. The library, the generated class and the file generator all perform this same conversion, and setting or loading one vector keeps the other consistent with it unless the caller asks otherwise.',
 ['inputs','histories'],'all parameter vectors with non-zero masses, any number of links, any order of set/load calls',
 TW+'conversion is exercised once per robot from a file and never inverted or compared with the parallel-axis theorem.',
 [RB,TC,GY],[('update_inertial_DYN/REG',RB),('update_inertial_DYN/REG',TC),('genInertial_files',GY)],['get_par_DYN/get_par_REG, generated yaml'])
prop('C12','Symbolic selectivity: exactly the selected entries stay free parameters',
 'For every selection pattern, every entry not marked symbolic is replaced everywhere by its configured numeric value and every marked entry remains an input; each generated function takes exactly the state vectors it needs plus the parameter vectors that have at least one symbolic entry, and each such vector contains the symbolic entries only, in storage order. Evaluating with the configured values gives the same result whatever the pattern.',
 ['configurations','inputs'],'all 0/1 selection patterns over all parameter vectors, all robots',
 TW+'the configs used select all or none of a vector.',[RB,K,D,R],[('init_symb_parameters/subs_symb_par',RB),('obtain_symb_parameters',RB),('update_symb_parameters',RB),('add_function',RB)],['function argument lists, Robot::get'])
prop('C13','Setters change exactly their target, reject wrong sizes; getters read it back',
 'On the library robot and on the generated class, setting a state or parameter vector of the right size replaces exactly that vector (and its declared derived vector) and nothing else, and reading it back returns the stored values. A vector of the wrong size is rejected with all stored vectors unchanged.',
 ['inputs','histories'],'all vectors of all sizes, all sequences of calls',
 TW+'wrong sizes and cross-talk between setters are never tried.',[RB,TC,TH],[('set_* / get_*',RB),('set_* / get_* / setArguments / resizeVariables',TC)],['get_par_*, Robot::get_arg, generated getters'])
prop('C14','Configuration values reach exactly their own slots',
 'For every well-formed configuration file, each link\'s inertial and friction values, each elastic joint\'s stiffness, damping and motor values, the DH table, offsets, gravity, model orders, joint types and selection vectors are loaded into the entries of that link, joint or parameter, in file order, and nothing else; optional sections that are absent take their documented defaults. Surplus links or joints are ignored, and the generated class loads the same file to the same values (its kinematic vectors holding the symbolic entries only).',
 ['inputs','configurations'],'all well-formed configurations: any n, orders, optional sections, surplus entries',
 TW+'a few files are loaded and the values are not compared.',[RB,TC],[('parse_config',RB),('load_conf_par',RB),('load_conf',TC)],['Robot::get_arg, get_par_*'])
prop('C15','Saved parameters load back unchanged',
 'For every robot and every parameter values, writing the configuration, the regressor-form parameters or a list of parameters to a file and loading that file back restores the values that were written (to the precision of the printed decimals), each in its own slot, on the library robot and on the generated class.',
 ['inputs','histories'],'all parameter values and all robots, any save/load sequence',
 TW+'files are written but not re-read and compared.',[RB,TC,GY],[('save_par_REG/load_par_REG/save_par/load_par/save_conf',RB),('save_par_REG/save_par_DYN/load_par_REG/load_conf/fillInertialYaml',TC),('fillInertialYaml',GY)],['yaml files written'])
prop('C16','Generated library computes the same functions as the in-process model',
 'For every robot, the generated class has one getter per model function, of the right matrix size, which passes that function\'s own arguments in order to the compiled function and returns its whole result; for any state and parameters set on both, every getter returns the value the in-process model returns. The generated constants (joint count, orders, elastic pattern, name) equal the configuration.',
 ['configurations','inputs'],'all robots and robot names, all functions, all states and parameters',
 TW+'two generated robots are compiled and printed; equality with the in-process model is never asserted.',
 [U,RB,TC,TH],[('change_to_robot',U),('get_functions/generate_library/add_function',RB),('template class',TC)],['generated getters vs Robot::get'])
prop('C17','Rigid-body inertia utilities are physically exact',
 'Rotation-from-angles utilities return the orthonormal Rz(yaw) Ry(pitch) Rx(roll); moving a body to another frame rotates and translates its centre of mass and rotates its inertia; merging two bodies adds masses, takes the mass-weighted centre of mass and combines inertias by the parallel-axis theorem. All copies of these utilities agree.',
 ['inputs'],'all angles, translations, masses with non-zero sum and inertias',
 TW+'none of these functions is called by a test.',[U,FO,TC,UD],[('rpyRot/transformBodyInertial/mergeBodyInertial/createI/hat',U),('get_rotation/get_transform',FO),('rpyRot/createI/hat',TC),('rpyRot/...',UD)],['return values'])
prop('C18','Template rewriting replaces exactly the intended text',
 'Text substitution replaces every non-overlapping occurrence of the pattern, left to right, changes nothing else and terminates, for every text, non-empty pattern and replacement (including replacements containing the pattern). The generated files carry the robot name in class, file and guard names, with one definition per getter declared.',
 ['inputs','configurations'],'all texts, non-empty patterns and replacements; all robot names usable as identifiers',
 TW+'two names are used and the result is only compiled.',[U,TM],[('replace_all',U),('change_to_robot/update_cmake/get_ret_type',U),('name derivation',TM)],['generated text'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+'/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
