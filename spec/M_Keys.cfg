SPECIFICATION Spec
CONSTANTS Prefixes = {0, 1, 4, 5, 6, 110, 111, 112, 127, 128, 129, 195, 196, 197, 238, 239, 240, 254, 255}
INVARIANTS WifExact AddrExact NeverBoth VersionsDistinct Emit
CHECK_DEADLOCK FALSE
