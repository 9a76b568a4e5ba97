"""All checks."""
import checks, checks_values, checks_sign
from chk import CHECKS, ASSUMPTIONS
import checks_codec, checks_reuse, checks_api, checks_hooks, checks_panic, checks_bytes, checks_faults, checks_effects, checks_again, checks_copies, checks_user
