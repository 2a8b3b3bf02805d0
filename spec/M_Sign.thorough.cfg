SPECIFICATION Spec
CONSTANTS MaxIns = 3
          MaxCalls = 4
INVARIANTS SignaturesStayValid HashIndependent OnlyTheScripts HashesDistinct Emit
CHECK_DEADLOCK FALSE
