SPECIFICATION Spec
CONSTANTS
  CheckLeaf = TRUE
  CheckOs = TRUE
  CheckEnabled = TRUE
INVARIANTS NoFault CanBeRun TheBest
PROPERTY Ends
