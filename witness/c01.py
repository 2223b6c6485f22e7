"""Inventory validation."""
from invcheck import run, replay      # noqa: F401

RULE = "conforming inventories (1..1100 versions, all options) and 1-5 random edits of them at any place; verdict compared with an independent oracle"
