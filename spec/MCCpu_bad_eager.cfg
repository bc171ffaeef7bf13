SPECIFICATION Spec
CONSTANTS
  CheckLeaf = TRUE
  CheckOs = TRUE
  CheckEnabled = FALSE
INVARIANTS NoFault CanBeRun TheBest

