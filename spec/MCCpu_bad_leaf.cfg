SPECIFICATION Spec
CONSTANTS
  CheckLeaf = FALSE
  CheckOs = TRUE
  CheckEnabled = TRUE
INVARIANTS NoFault CanBeRun TheBest

