SPECIFICATION Spec
CONSTANTS ESC = "E" Terms = {"dumb", "xterm-256color"} Pats = {"%v", "<%^%l%$>%v", "%+"}
INVARIANT Faithful
PROPERTIES Own Prompt
CONSTRAINT Bounded
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
