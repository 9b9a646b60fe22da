"""Stand-in for airio (not installable offline): only the names t5x refers to."""
