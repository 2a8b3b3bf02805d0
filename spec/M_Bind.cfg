SPECIFICATION Spec
CONSTANTS Secrets <- SomeSecrets
          Digests <- SomeDigests
          Nonces <- SomeNonces
INVARIANTS Binds Emit
CHECK_DEADLOCK FALSE
