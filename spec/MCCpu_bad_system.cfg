SPECIFICATION Spec
CONSTANTS
  CheckLeaf = TRUE
  CheckOs = FALSE
  CheckEnabled = TRUE
INVARIANTS NoFault CanBeRun TheBest

