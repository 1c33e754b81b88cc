CONSTANTS
 NS2 = {2,3}
 NS3 = {2}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Symmetric Definite Rigid Coupling DivFree ConstP Volume DirRows DiagOK
