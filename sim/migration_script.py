"""A migration script as `moz-l10n migrate` runs it; what it defines comes from the scenario."""
from sim import migspec

migspec.define(__name__)
