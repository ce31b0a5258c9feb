SPECIFICATION Spec
CONSTANTS Names = {"temperature", "x"}
          Numbers = {0, 3}
          Kinds = {"set", "glob", "imp", "add", "fun", "gen", "lam", "loop", "late", "del"}
          MaxLen = 3
CHECK_DEADLOCK FALSE
INVARIANTS Stepwise SameAsPlain Emit
PROPERTY Frame
