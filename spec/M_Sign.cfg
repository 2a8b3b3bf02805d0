SPECIFICATION Spec
CONSTANTS MaxIns = 3
          MaxCalls = 3
INVARIANTS SignaturesStayValid HashIndependent OnlyTheScripts HashesDistinct Emit
CHECK_DEADLOCK FALSE
