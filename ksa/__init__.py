"""kerncraft static analysis: source-only checkers (nothing from /repo is ever imported or run)."""
