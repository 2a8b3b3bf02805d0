SPECIFICATION Spec
CONSTANTS Prefixes <- Byte
INVARIANTS WifExact AddrExact NeverBoth VersionsDistinct Emit
CHECK_DEADLOCK FALSE
