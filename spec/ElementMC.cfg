SPECIFICATION Spec
CONSTANTS Bs = {"", "61"}
          Sums = {"0", "5", "-7", "9223372036854775807", "-9223372036854775808"}
          BigSums = {"0", "-1", "9223372036854775808", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728"}
          Ns = {"0", "251", "18446744073709551615"}
          Ps = {0, 1, 255}
          Paths <- PathSet
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Cuts Agree
