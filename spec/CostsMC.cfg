SPECIFICATION Spec
CONSTANTS Cap32 = "5"
          Cap64 = "5"
          Ids = {"0000000000000000000000000000000000000000000000000000000000000000", "aa"}
          Eps = {0, 65535}
          Amounts = {"1", "3"}
CHECK_DEADLOCK FALSE
INVARIANTS Commutes Associates Identity TotalAdds Keeps
