"""Static-analysis framework for UXsim (no code of the analysed project is ever imported or run)."""
