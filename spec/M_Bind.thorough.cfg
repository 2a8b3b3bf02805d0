SPECIFICATION Spec
CONSTANTS Secrets <- MoreSecrets
          Digests <- MoreDigests
          Nonces <- SomeNonces
INVARIANTS Binds Emit
CHECK_DEADLOCK FALSE
